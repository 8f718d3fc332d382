import json, re
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
T = 'TLA+/TLC: '
TR = 'TLC trace validation'
C = {
 'C01': ('model_checking', T + 'CLDR rule semantics, model checked; select calls of the real library validated against it',
         'Every cardinal locale x a signature-complete set of numbers; the specification reads the CLDR text itself. Bulk calls are deduplicated by a signature that TLC shows sound. Trusts TLC, the harness and spec/data (CLDR 37).'),
 'C02': ('model_checking', T + 'CLDR rule semantics, model checked; select calls of the real library validated against it',
         'As C01, for ordinals.'),
 'C03': ('model_checking', T + 'number scanner and operand definition, model checked; recorded conversions validated',
         'Exact decimal arithmetic in the specification; numerals around every boundary, long and random. A fast mirror screens bulk calls, all unconfirmed ones and a sample go to TLC.'),
 'C04': ('model_checking', T + 'operand definition; recorded integer conversions validated', 'All 8/16 bit values; 32 bit strided (quick) or complete (thorough); 64 bit boundaries and random. Mirror screens bulk calls.'),
 'C05': ('model_checking', T + 'rounding intervals of floats as exact decimals; recorded float conversions validated', 'f32 sampled (quick) or complete (thorough), f64 edges and random; shortestness decided exactly by TLC on recorded events, the mirror (shortest printing of std) screens the rest.'),
 'C06': ('model_checking', T + 'number scanner explored over all short texts; conversions and selections of the same texts validated', 'All texts up to 4 (6) characters over 8 characters, hand-made and mutated texts.'),
 'C07': ('model_checking', T + 'recorded selections of one number through every type validated for equality', 'Every locale x numbers x all argument types.'),
 'C08': ('model_checking', T + 'locale sets from the CLDR data; recorded lists and creations validated', 'All 2 and 3 letter languages, listed languages with scripts, regions, variants, longer languages sampled.'),
 'C09': ('model_checking', T + 'client machine, exhaustively explored; TLC-generated behaviours replayed and recorded histories validated', 'Answers of fresh processes are the oracle; sequential, cloned, concurrent histories. Thread schedules are the operating system\'s.'),

 'C10': ('model_checking', T + 'rule grammar machine explored; its sentences parsed by the real parser in many spellings, trees validated', 'All token sequences up to the bounds in spec/RuleModel*.cfg, random longer ones; the specification reads the texts itself.'),
 'C11': ('model_checking', T + 'relation between tree and text (Spells); recorded parses of sentences and mutants validated', 'Every accepted mutant is judged, refusals need no judgement; no generator of texts is complete.'),
 'C12': ('model_checking', T + 'sample grammar explored; recorded sample trees validated', 'As C10. One known finding: zeros at the front of sample fractions.'),
 'C13': ('model_checking', T + 'both parsers on the same texts, validated', 'As C11.'),
 'C14': ('model_checking', T + 'rule set machine explored; generated code compiled, run and its selections validated', 'All and/or/category structures up to 5 (6) relations, all relation shapes, random combinations; numbers around every value mentioned. Three known deviation kinds, each specified exactly. Trusts rustc and rustfmt.'),
 'C15': ('model_checking', T + 'table machine explored; generated libraries for its key sets compiled, lists and creations validated', 'All key sets up to 3 of 7 keys, random sets up to 400 (700) keys.'),
 'C16': ('model_checking', T + 'combination machine explored; all its file sequences generated by the real generator, validated', 'All sequences up to 3 (4) files of 14 kinds; repeated runs, two processes, all orders.'),
 'C17': ('model_checking', T + 'shipped and regenerated library side by side, validated for equality', 'Every locale x some 3000 numbers; finite sample of numbers chosen around every literal of both tables.'),
 'C18': ('model_checking', T + 'command machine with faults explored, incl. termination; every scenario run on the real command, validated', 'All scenarios with up to 2 (3) inputs x 7 output states x 2 formats, in scratch directories.'),
 'C19': ('model_checking', T + 'generous and usual reading of rule texts and keys; recorded acceptances and refusals validated', 'Sentences of the grammar machine, CLDR texts, mutants, malformed keys.'),
 'C20': ('model_checking', T + 'rewriting machine explored (facts unchanged by every step); its step sequences applied to data sets, both generations validated', 'All sequences up to 4 of 8 rewriting steps, each on a random small data set, some on the shipped data. Outputs are compared byte by byte (hash).'),
 'C21': ('model_checking', T + 'machine of overlapping calls explored; TLC-generated interleavings replayed on real threads, recorded histories validated', 'Answers of fresh processes are the oracle; some 2000 calls, 300 (3000) behaviours of 60 steps on 4 threads, long walks on 8. Within a behaviour the operating system schedules.'),
}
import importlib, sys
try:
    sys.path.insert(0, '/verif/tools')
    from manifest_more import MORE
    C.update(MORE)
except ImportError:
    pass
m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks: everything is observed through the public API and the generator command.'}
for p in props:
    i = p['id']
    if i in C:
        lv, te, no = C[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 bin/check.py ' + i,
            thorough_cmd='VERIF_TIER=thorough python3 bin/check.py ' + i, technique=te, level=lv, level_note=no))
    else:
        m['not_applicable'].append(dict(property=i, reason='check not built yet'))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
