# Writes /verif/MANIFEST.json.
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'), encoding='utf-8')]
EXHAUSTIVE = {
    'U01': 'all 340 slots and all tables are compared with the layout the specification enumerates (exhaustive); numbers of forms near and at every boundary',
    'U02': 'every complete and partial request over the schema of every part of speech (about 7,100) is compared (exhaustive for words without own properties); own properties and foreign kinds are sampled',
    'U03': 'all pairs of lists of up to 2+1 sources over 3 kinds are compared, every value over every value of every kind, longer lists sampled',
    'U04': 'seeded sampling of objects and documents; every property value alone',
    'U05': 'the whole relation table, every identifier and every saved number (exhaustive)',
    'U06': 'every text of up to 3 tokens over a 10-token alphabet (4 sampled in quick, 5 in thorough runs), longer texts sampled',
    'U07': 'as U06 for parsing results, with sampled realistic markup',
    'U08': 'seeded sampling of scenes with conflicting sources of every property',
    'U09': 'every combination of case, animality, number, gender, numeral form, noun form and mode, specified or not (exhaustive over the kinds the rules look at)',
    'U10': 'every combination of case, animality, number, gender, numeral form and mode, specified or not (exhaustive over the kinds the rules look at)',
    'U11': 'every integer from -130 to 2299 and about 3,000 larger and negative ones',
    'U12': 'five prepositions before every pair of words of up to two letters over a 5-letter alphabet (sampled 60 percent in quick runs), real words and longer ones sampled',
    'U13': 'every order of adding up to 3 (thorough 4) of 10 homonymous words (700 of 1,000 histories in quick runs), larger dictionaries sampled',
    'U14': 'as U13, with sampled dictionaries over all parts of speech',
    'U15': 'every history of 2 (thorough 3) parses over 7 texts, sampled templates and externals',
    'U16': 'every history of 2 (thorough 3) additions with all queries, longer ones sampled; randomness is observed by 240 draws per query',
    'U17': 'every history of 2 (thorough 3) additions with all queries, longer ones sampled; randomness is observed by 240 draws per query',
    'U18': 'every set of at most two given slots of nouns and verbs, every set for prepositions, one slot and selected pairs for others, larger sets sampled',
    'U19': 'every history of 2 (thorough 3) calls out of 17 over the whole library with 24 questions after each, longer ones sampled; all schedules of three askers in up to 5 (7) turns, sampled line by line; a wrong answer counts if it is right when nothing else was asked',
    'U20': 'every history of 2 (thorough 3) parses and loads over 7 texts and 2 templates, longer ones sampled',
    'U21': 'every slot of every frozen layout of migrations 1-9 and of their compositions from every epoch (exhaustive)',
    'U22': 'every word of up to two letters over 5 letters, every Russian letter in both cases, sampled words',
    'U23': 'seeded sampling of near-equal objects of every sort',
    'U24': 'seeded sampling of failing and boundary calls; every history of 2 parses over 7 texts',
}
checks = []
for p in props:
    i = p['id']
    checks.append({
        'property': i,
        'quick_cmd': 'python3 check.py %s' % i,
        'thorough_cmd': 'python3 check.py %s --thorough' % i,
        'technique': 'TLA+ specification checked with TLC; its scenarios replayed on the real code and the recorded traces validated by TLC',
        'level': 'model_checking',
        'level_note': 'Conformance, within bounds: %s. Trusts TLC, the translation in harness/interp.py and that the specification says what the property means.' % EXHAUSTIVE[i],
    })
doc = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': [],
       'notes': 'No hooks: everything is observed through the public API. Known and repaired defects are in KNOWN_FINDINGS.txt.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(doc, f, ensure_ascii=False, indent=1)
    f.write('\n')
