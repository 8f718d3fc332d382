"""One function per property."""
import json, os
from vlib import *
import gencheck, clicheck


def recipe(chk):
    model(chk, 'CldrModel')
    return os.path.join(chk.work, 'recipe.json')


def select(pid):
    chk = Check(pid, 'model_checking')
    ty = {'C01': 'cardinal', 'C02': 'ordinal'}[pid]
    rec = recipe(chk)
    build_harness()
    trace = os.path.join(chk.work, 'trace.ndjson')
    st = harness(chk, ['select', '--type', ty, '--recipe', rec, '--out', trace])
    if st:
        chk.cov.update(select_calls=st['evaluations'], numbers=st['numbers'] + st['ints'], locales=st['locales'],
                       rulesets=st['rulesets'])
        events, bad, known = judge(chk, 'SelectTrace', trace)
        chk.sample(*[events[k] for k in range(0, len(events), max(1, len(events) // 6))])
        by = {}
        for f in chk.findings:
            by.setdefault(f['locale'], []).append(f)
        for k in known:
            e = events[k]
            for f in by.get(e['loc'], []):
                chk.known('%s %s: %s = "%s" deviates, e.g. select(%s) gives %s instead of %s (%s)' % (
                    ty, f['locale'], f['category'], f['relation'], f['input'], f['actual'], f['expected'], f['deviation']))
    chk.assumptions += ['CLDR 37 rules as in spec/data (the data shipped at the pinned commit)',
                        'numbers with a fraction have at most 15 significant digits where the rules ask for n']
    return chk.finish()


def operands(pid):
    chk = Check(pid, 'model_checking')
    cmd, cls = {'C03': ('text', 'plain'), 'C04': ('ints', 'int'), 'C05': ('floats', 'float'), 'C06': ('junk', 'other')}[pid]
    model(chk, 'NumberModel', cfg='NumberModelDeep')
    build_harness()
    trace = os.path.join(chk.work, 'trace.ndjson')
    st = harness(chk, [cmd, '--out', trace])
    if st:
        chk.cov.update(conversions=st['evaluations'], screened=st)
        events, bad, known = judge(chk, 'OperandTrace', trace, env={'CLASS': cls})
        spread(chk, events)
    return chk.finish()


def spread(chk, events, n=6):
    chk.sample(*[events[k] for k in range(0, len(events), max(1, len(events) // n))])


def reps(pid):
    chk = Check(pid, 'model_checking')
    rec = recipe(chk)
    build_harness()
    trace = os.path.join(chk.work, 'trace.ndjson')
    st = harness(chk, ['reps', '--recipe', rec, '--out', trace])
    if st:
        chk.cov.update(select_calls=st['evaluations'], numbers=st['numbers'])
        events, bad, known = judge(chk, 'RepsTrace', trace)
        spread(chk, events)
    return chk.finish()


def locales(pid):
    chk = Check(pid, 'model_checking')
    rec = json.load(open(recipe(chk)))
    build_harness()
    trace = os.path.join(chk.work, 'trace.ndjson')
    lf = os.path.join(chk.work, 'locales.json')
    json.dump(sorted(set(rec['cardinal']) | set(rec['ordinal'])), open(lf, 'w'))
    st = harness(chk, ['locales', '--locales', lf, '--out', trace])
    if st:
        chk.cov.update(calls=st['evaluations'], identifiers=st['identifiers'])
        events, bad, known = judge(chk, 'LocaleTrace', trace)
        spread(chk, events)
    return chk.finish()


ARGS = [['str', x] for x in ('0', '1', '2', '3', '5', '11', '21', '102', '1.0', '1.5', '0.1', '2.00', '1000000', '-1', '-1.5', 'foo', '',
                              '18446744073709551615', '4294967297', '257', '65537', '16777216', '16777217',
                              '1000000000000000001', '2000000000000000001', '1.0000000000000000', '2.0000000000000000', '1.0000000000000001', '1.00000000000000000')] + \
    [['String', x] for x in ('1', '1.0', 'bar')] + \
    [['i8', '1'], ['i8', '-3'], ['u8', '2'], ['i32', '1'], ['i32', '-1'], ['i32', '7'], ['u64', '1'], ['u64', '4294967297'],
     ['u64', '101'], ['i64', '-9223372036854775808'], ['i64', '2'], ['usize', '1'], ['usize', '10'], ['f32', '1'], ['f32', '0.5'],
     ['f64', '1'], ['f64', '1.5'], ['f64', '-2.25'], ['f64', 'nan'], ['operands', '1'], ['operands', '1.0'], ['operands', '3']]


def history(pid):
    chk = Check(pid, 'model_checking')
    build_harness()
    unlisted = ['xx', 'en-US', 'pt-BR', 'und']
    plan = {'types': ['cardinal', 'ordinal'], 'unlisted': unlisted, 'args': ARGS,
            'locs': ['en', 'ar', 'ru', 'ja', 'cy', 'lv', 'pt', 'pt-PT', 'fr', 'sl', 'kw', 'it', 'mk', 'naq'] + unlisted}
    if THOROUGH:
        plan['locs'] += ['uk', 'hu', 'sv', 'ca', 'as', 'mr', 'gd', 'he', 'br', 'mt', 'ga', 'tzm']
    pf = os.path.join(chk.work, 'plan.json')
    json.dump(plan, open(pf, 'w'))
    # the machine itself, exhaustively on a small universe
    small = dict(plan, locs=['en', 'cy', 'xx'], args=[['str', '1'], ['i32', '2']])
    sf = os.path.join(chk.work, 'small.json')
    json.dump(small, open(sf, 'w'))
    model(chk, 'ApiModel', env={'PLAN': sf})
    # behaviours to replay
    n = 4000 if THOROUGH else 400
    out = tlc(chk, 'ApiModel', env={'PLAN': pf}, cfg='ApiGen', workers=1,
              extra=['-simulate', 'num=%d' % n, '-depth', '61', '-seed', str(SEED)])
    bs = [json.loads('"' + b + '"') for b in re.findall(r'<<"BEHAVIOUR", "(.*)">>', out)]
    # TLC reports every candidate for the last step: one of each
    bs = list({json.dumps(json.loads(b)[:-1]): b for b in bs}.values())
    if len(bs) < n // 2:
        raise ToolError('behaviour generation failed (%d):\n%s' % (len(bs), out[-2000:]))
    bf = os.path.join(chk.work, 'behaviours.ndjson')
    with open(bf, 'w') as f:
        for b in bs:
            f.write(b + '\n')
    chk.cov['behaviours_generated'] = len(bs)
    tf = os.path.join(chk.work, 'table.json')
    st = harness(chk, ['fresh', '--plan', pf, '--out', tf])
    if not st:
        return chk.finish()
    chk.cov['fresh_process_calls'] = st['evaluations']
    trace = os.path.join(chk.work, 'trace.ndjson')
    st = harness(chk, ['api', '--plan', pf, '--table', tf, '--behaviours', bf, '--out', trace])
    if st:
        chk.cov.update(calls=st['evaluations'])
        events, bad, known = judge(chk, 'ApiTrace', trace, env={'TABLE': tf})
        chk.sample(*[e for e in events[:1] + events[-3:]])
    trace, tf = os.path.join(chk.work, 'orders.ndjson'), os.path.join(chk.work, 'orders-table.json')
    st = harness(chk, ['orders', '--plan', pf, '--table', tf, '--out', trace])
    if st:
        chk.cov.update(calls_in_orders=st['evaluations'], order_locales=st['locales'], order_arguments=st['arguments'])
        chk.cov['fresh_process_calls'] += st['fresh']
        judge(chk, 'ApiTrace', trace, env={'TABLE': tf})
    chk.assumptions += ['thread schedules are those the operating system produced']
    return chk.finish()


def sentences(chk):
    path = os.path.join(chk.work, 'sentences.txt')
    n = 0
    with open(path, 'w') as f:
        for part in ('Rel', 'Bool', 'Samples'):
            out = model(chk, 'RuleModel', cfg='RuleModel' + part)
            for s in sorted(set(re.findall(r'<<"SENTENCE", "(.*)">>', out))):
                f.write(s + '\n')
                n += 1
    chk.cov['spec_sentences'] = n
    return path


def parser(pid):
    chk = Check(pid, 'model_checking')
    sf = sentences(chk)
    build_harness()
    trace = os.path.join(chk.work, 'trace.ndjson')
    st = harness(chk, ['parse', '--sentences', sf, '--out', trace])
    if st:
        chk.cov.update(parses=st['evaluations'], spellings=st['spellings'], mutants_accepted=st['mutants_accepted'])
        events, bad, known = judge(chk, 'ParserTrace', trace, env={'CLASS': pid})
        spread(chk, events)
        if known:
            chk.cov['known_finding_events'] = len(known)
            for f in chk.findings:
                chk.known(f['what'])
    return chk.finish()


CHECKS = {'C01': select, 'C02': select, 'C03': operands, 'C04': operands, 'C05': operands, 'C06': operands,
          'C07': reps, 'C08': locales, 'C09': history, 'C10': parser, 'C11': parser, 'C12': parser, 'C13': parser, 'C14': gencheck.c14, 'C15': gencheck.c15,
          'C16': clicheck.c16, 'C17': gencheck.c17, 'C18': clicheck.c18, 'C19': clicheck.c19, 'C20': clicheck.c20, 'C21': clicheck.c21}
