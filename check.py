#!/usr/bin/env python3
# coding: utf-8
"""check.py PROPERTY [--thorough] [--replay FILE]

Decides one property: explores the models that concern it (TLC checks their theorems and prints
scenarios), generates further seeded scenarios, runs all of them on the real code in /repo and has
TLC compare every recorded result with the specification.
Exit 0: it held; 1: VIOLATION lines; 2: the machinery itself failed.
"""
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
import blame  # noqa: E402
import gen  # noqa: E402
import runner  # noqa: E402
from gen import ADJ, NOUN, PART, PRON, VERB  # noqa: E402

# models and suites of every property
PLAN = {
    'U01': (['Forms'], ['layout', 'membership']),
    'U02': (['Forms'], ['requests', 'forms', 'stale', 'brief']),
    'U03': (['Merging'], ['merging', 'properties', 'defaults', 'effects', 'large']),
    'U04': (['Saved'], ['stored', 'saved', 'relations', 'large', 'stale', 'brief']),
    'U05': (['Saved'], ['relations']),
    'U06': (['Markup'], ['markuptexts', 'literals', 'readme', 'large', 'brief']),
    'U07': (['Markup'], ['markuptexts', 'markup', 'readme', 'large']),
    'U08': (['Sources'], ['sources', 'precedence', 'rendering', 'growing', 'readme', 'large', 'governors', 'brief']),
    'U09': (['Numerals'], ['rules_nouns', 'numerals_nouns', 'counting']),
    'U10': (['Numerals'], ['rules_others', 'numerals_others', 'counting']),
    'U11': (['Numerals'], ['integers']),
    'U12': (['Prepose'], ['prepose', 'prepositions', 'governors', 'brief']),
    'U13': (['Homonyms'], ['orders', 'homonyms', 'growing', 'large', 'stale', 'brief']),
    'U14': (['Homonyms'], ['orders', 'membership', 'growing', 'large', 'stale', 'brief']),
    'U15': (['Reparse', 'Failing'], ['failing', 'parses', 'missing', 'growing', 'large', 'stale', 'brief']),
    'U16': (['Offers'], ['additions', 'lexicons', 'stale', 'brief']),
    'U17': (['Offers'], ['additions', 'lexicons', 'stale', 'brief']),
    'U18': (['Fill'], ['autofill']),
    'U19': (['Whole', 'Turns', 'Lives'], ['whole', 'turns', 'lives', 'among', 'effects', 'journeys', 'growing', 'large', 'stale', 'brief']),
    'U20': (['Reparse'], ['parses', 'reparse', 'journeys', 'large']),
    'U21': (['Layouts'], ['migrations']),
    'U22': (['Prepose'], ['phonetics', 'large', 'stale', 'brief']),
    'U23': (['Merging', 'Twins'], ['twins', 'equality', 'merging', 'properties', 'stale', 'brief']),
    'U24': (['Reparse', 'Failing'], ['failing', 'failures', 'parses', 'missing', 'lexicons']),
}

# properties whose core operations have laws proved without bounds (spec/Proofs.tla), checked again in thorough runs
PROVED = {'U03', 'U11', 'U13', 'U16', 'U17', 'U18', 'U19'}
WORKERS = max(1, min(6, runner.CORES - 1))
LONG_TIME = 780


class Run:

    def __init__(self, prop, scratch, seed, thorough):
        self.scratch, self.seed, self.thorough = scratch, seed, thorough
        self.scale = 8 if thorough else 1
        self.models = {}
        self.prop = prop
        self.proved = None
        self.started = time.time()

    def model(self, name):
        if name not in self.models:
            self.models[name] = runner.run_model(name, self.scratch, workers=WORKERS, timeout=700,
                                                 env={'UTG_LONG': '1' if self.thorough else '0'})
        return self.models[name]

    def histories(self, name, suite, limit, tags=()):
        m = self.model(name)
        return gen.from_histories(m.prelude, m.scenarios, suite, self.seed, limit * (12 if self.thorough else 1), tags)

    def suite(self, name, seed):
        model, scale = self.model, self.scale
        if name == 'brief':
            return gen.brief(seed, scale, self.prop)
        if name == 'requests':
            return gen.from_forms(model('Forms').scenarios, seed, scale)
        if name == 'merging':
            return gen.from_merging(model('Merging').scenarios)
        if name == 'markuptexts':
            texts = model('Markup').scenarios
            # the shorter texts always, the longest ones by sampling in quick runs
            r = gen.random.Random(seed)
            short = [x for x in texts if len(x) <= 4]
            rest = [x for x in texts if len(x) > 4]
            keep = 40000 if self.thorough else 4500
            if len(rest) > keep:
                rest = r.sample(rest, keep)
            return gen.rawtexts(short + rest, 'markuptexts', [])
        if name in ('rules_nouns', 'rules_others'):
            types = (NOUN, PRON) if name == 'rules_nouns' else (ADJ, PART, VERB)
            return gen.from_numerals(model('Numerals').scenarios, seed, scale, types)
        if name in ('numerals_nouns', 'numerals_others'):
            types, tag = ((NOUN, PRON), 'U09') if name == 'numerals_nouns' else ((ADJ, PART, VERB), 'U10')
            return gen.numerals(seed, scale, types, name, tag)
        if name == 'prepose':
            return gen.from_prepose(model('Prepose').scenarios, seed, scale)
        if name == 'orders':
            return self.histories('Homonyms', 'orders', 700)
        if name == 'parses':
            return self.histories('Reparse', 'parses', 450)
        if name == 'additions':
            return self.histories('Offers', 'additions', 400)
        if name == 'lives':
            return self.histories('Lives', 'lives', 400)
        if name == 'whole':
            return self.histories('Whole', 'whole', 300)
        if name == 'sources':
            return self.histories('Sources', 'sources', 700)
        if name == 'failing':
            return self.histories('Failing', 'failing', 220)
        if name == 'twins':
            return self.histories('Twins', 'twins', 40)
        if name == 'turns':
            return gen.from_turns(model('Turns').scenarios, seed, scale)
        if name == 'stored':
            return gen.from_saved(model('Saved').scenarios, seed, scale)
        if name == 'autofill':
            cases = [(c['t'], [x - 1 for x in c['g']]) for c in model('Fill').scenarios]
            return gen.autofill(seed, scale, cases)
        if name == 'phonetics':
            texts = [gen_text(x['a']) for x in model('Prepose').scenarios if not x['b']]
            return gen.phonetics(seed, scale, texts)
        return getattr(gen, name)(seed, scale)


def gen_text(points):
    return ''.join(map(chr, points))


def known_findings():
    """Lines "known: property=<id> event=<json>" of KNOWN_FINDINGS.txt."""
    out = []
    with open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt'), encoding='utf-8') as f:
        for line in f:
            if line.startswith('known: '):
                _, prop, rest = line.rstrip('\n').split(' ', 2)
                what, _, text = rest.partition(' :: ')
                out.append((prop.split('=')[1], json.loads(what.split('=', 1)[1]), text))
    return out


def matches(pattern, event, got):
    """A finding names the call and the very result that is wrong."""
    event = dict(event, got=got)
    return all(event.get(k) == v for k, v in pattern.items())


def describe(f):
    ev = {k: v for k, v in f.event.items() if k not in ('res', 'for')}
    return {'call': ev, 'differs': f.fields, 'expected': f.want, 'got': f.got, 'suite': f.session['suite']}


def persists(run, events, variant, last=1):
    """Whether the last of the events (or one of the last) still fails."""
    c = runner.Conformance(run.scratch, run.seed)
    c.run([{'suite': 'again', 'events': events, 'variant': variant}])
    if c.broken:
        return True
    return any(f.index >= len(events) - last for f in c.failures)


MUTATORS = {'word', 'wf', 'int', 'rtw', 'loadw', 'rtt', 'loadt', 'dict', 'add', 'tpl', 'parse', 'lex', 'ladd',
            'autofill'}


def alone(f):
    """The failing question, asked in a session where nothing else was asked."""
    events = f.session['events'][:f.index + 1]
    last = len(events) - 1
    return [e for n, e in enumerate(events) if n == last or e['op'] in MUTATORS or e.get('keep')]


def concerned(run, prop, failures):
    """The failures that break this property."""
    out = [f for f in failures if prop in blame.properties(f)]
    if prop == 'U19':
        # a wrong answer that is right when nothing else was asked before depends on history
        tried = set()
        for f in failures:
            kind = (f.event['op'], tuple(f.fields))
            if len(out) >= 5 or len(tried) >= 10:
                break
            if f in out or kind in tried or f.event['op'] in MUTATORS or f.index < 0:
                continue
            tried.add(kind)
            if f.event['op'] == 'among':
                # wrong from then on, although right without having been asked at once
                events = alone(f)[:-1] + [dict(q, keep=False) if q['op'] == 'get' else q for q in f.event['qs']]
                if not persists(run, events, f.session['variant'], len(f.event['qs'])):
                    out.append(f)
                continue
            events = alone(f)
            if len(events) < f.index + 1 and not persists(run, events, f.session['variant']):
                out.append(f)
    return out


def save(prop, n, f, events):
    folder = os.path.join(ROOT, 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, '%s-%d.json' % (prop, n))
    with open(path, 'w', encoding='utf-8') as out:
        json.dump(dict(describe(f), property=prop, events=events, variant=f.session.get('variant', 0)), out, ensure_ascii=False, indent=1)
    return path


def shown(events):
    """Code points as text, for people."""
    def conv(x):
        if isinstance(x, list) and x and all(isinstance(c, int) and 9 <= c < 0x110000 for c in x):
            return ''.join(map(chr, x))
        if isinstance(x, list):
            return [conv(y) for y in x]
        if isinstance(x, dict):
            return {k: conv(v) for k, v in x.items()}
        return x
    return conv(events)


def replay(path):
    with open(path, encoding='utf-8') as f:
        doc = json.load(f)
    with runner.Scratch() as scratch:
        c = runner.Conformance(scratch, int(os.environ.get('VERIF_SEED', '1')))
        c.run([{'suite': 'replay', 'events': doc['events'], 'variant': doc.get('variant', 0)}])
        if c.broken:
            print(c.broken[0])
        for f in c.failures:
            print(json.dumps(shown(describe(f)), ensure_ascii=False))
        if c.broken or c.failures:
            print('VIOLATION property=%s replay=%s' % (doc['property'], path))
            return 1
    return 0


def main(argv):
    prop = argv[1]
    if '--replay' in argv:
        return replay(argv[argv.index('--replay') + 1])
    thorough = '--thorough' in argv
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    start = time.time()
    models, suites = PLAN[prop]
    seen, failures, broken = {}, [], None
    with runner.Scratch() as scratch:
        run = Run(prop, scratch, seed, thorough)
        conf = runner.Conformance(scratch, seed)
        for name in models:
            run.model(name)
        if thorough and prop in PROVED:
            run.proved = runner.prove('Proofs', scratch)
        rounds = 0
        while True:
            sessions = []
            for name in suites:
                part = run.suite(name, seed + rounds)
                seen[name] = seen.get(name, 0) + len(part)
                sessions += part
            gen.random.Random(seed).shuffle(sessions)
            spent = time.time()
            conf.run(sessions)
            spent = time.time() - spent
            rounds += 1
            if not thorough or conf.failures or conf.broken or time.time() - start + spent * 1.3 > LONG_TIME * 0.6:
                break
            # further rounds: only the suites that depend on the seed
            suites = [s for s in suites if s not in ('layout', 'relations', 'defaults', 'readme', 'merging', 'migrations')]
            if not suites:
                break
        failures, broken = conf.failures, conf.broken
        hits = concerned(run, prop, failures)
        findings = [(p, w, t) for p, w, t in known_findings() if p == prop]
        fresh, known = [], set()
        for f in hits:
            for n, (_, pattern, _) in enumerate(findings):
                if matches(pattern, f.event, f.got):
                    known.add(n)
                    break
            else:
                fresh.append(f)
        for n in sorted(known):
            print('KNOWN-FINDING: property=%s %s' % (prop, findings[n][2]))
        status = 0
        if broken:
            path = os.path.join(ROOT, 'replays', '%s-0.json' % prop)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            session, index = broken[1]
            with open(path, 'w', encoding='utf-8') as out:
                json.dump({'property': prop, 'problem': broken[0],
                           'events': session['events'][:max(index, 0) + 1]}, out, ensure_ascii=False, indent=1)
            print(broken[0])
            print('VIOLATION property=%s replay=%s' % (prop, path))
            status = 1
        shapes = set()
        for f in fresh:
            shape = (f.event['op'], tuple(f.fields))
            if shape in shapes or len(shapes) >= 5:
                continue
            shapes.add(shape)
            events = f.session['events'][:max(f.index, 0) + 1]
            small = alone(f)
            if prop != 'U19' and len(small) < len(events) and persists(run, small, f.session['variant']):
                events = small
            path = save(prop, len(shapes), f, events)
            print(json.dumps(shown(describe(f)), ensure_ascii=False)[:1500])
            print('VIOLATION property=%s replay=%s' % (prop, path))
            status = 1
        evidence(prop, run, conf, seen, rounds, time.time() - start, len(fresh), len(known), len(failures) - len(hits))
    return status


def evidence(prop, run, conf, seen, rounds, wall, violations, known, foreign):
    models = run.models.values()
    doc = {
        'property': prop,
        'tier': 'thorough' if run.thorough else 'quick',
        'seed': run.seed,
        'level': 'model_checking',
        'coverage': {
            'states': sum(m.states for m in models) + conf.states,
            'transitions': sum(m.transitions for m in models) + conf.events,
            'traces_validated_against_impl': conf.sessions,
            'calls_compared_with_specification': conf.events,
            'model_states': {m.name: m.states for m in models},
            'model_scenarios': {m.name: len(m.scenarios) for m in models},
            'sessions_by_suite': seen,
            'rounds': rounds,
            'mismatches_of_other_properties': foreign,
            'known_findings_seen': known,
            'samples': [shown(s) for s in conf.samples] or [{'model': m.name, 'scenario': m.scenarios[:1]} for m in models],
        },
        'assumptions': (['tlapm and its back ends are right'] if run.proved else []) + ['TLC evaluates the specification correctly',
                        'harness/interp.py translates values faithfully between the library and the specification',
                        'letters outside Cyrillic, ASCII and Latin-1 that change under upper()/lower() are not used'],
        'wall_s': round(wall, 1),
        'violations': violations,
    }
    if run.proved:
        doc['coverage']['laws_proved_without_bounds'] = {
            'obligations': run.proved, 'checker_cmd': 'tlapm spec/Proofs.tla',
            'bound_to_the_specification_by': 'the models Merging, Numerals, Offers, Homonyms, Fill and Turns'}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w', encoding='utf-8') as out:
        json.dump(doc, out, ensure_ascii=False, indent=1)


if __name__ == '__main__':
    try:
        sys.exit(main(sys.argv))
    except runner.MachineError as e:
        print('ERROR %s' % e)
        sys.exit(2)
