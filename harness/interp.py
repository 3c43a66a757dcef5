# coding: utf-8
"""Executes events on the real library through its public API and records what it did.

Usage: interp.py EVENTS.ndjson TRACE.ndjson SEED
Knows nothing about what the results should be: it only translates values to and from the
encoding of the specification (texts as code points, property sets as vectors over Kinds).
"""
import copy
import importlib
import inspect
import json
import os
import random
import signal
import sys
import threading
import warnings
import zlib

warnings.simplefilter('ignore')

KINDS = [  # spec kind number (1-based), name of the relation, names of its values in spec order
    ('CASE', 'NOMINATIVE GENITIVE DATIVE ACCUSATIVE INSTRUMENTAL PREPOSITIONAL'),
    ('ANIMALITY', 'ANIMATE INANIMATE'),
    ('NUMBER', 'SINGULAR PLURAL'),
    ('GENDER', 'MASCULINE NEUTER FEMININE'),
    ('VERB_FORM', 'INFINITIVE INDICATIVE IMPERATIVE'),
    ('TIME', 'PAST PRESENT FUTURE'),
    ('PERSON', 'FIRST SECOND THIRD'),
    ('ASPECT', 'IMPERFECTIVE PERFECTIVE'),
    ('ADJECTIVE_CATEGORY', 'QUALITY RELATIVE POSSESSIVE'),
    ('GRADE', 'POSITIVE COMPARATIVE SUPERLATIVE'),
    ('PRONOUN_CATEGORY', 'PERSONAL REFLEXIVE POSSESSIVE INTERROGATIVE RELATIVE DEMONSTRATIVE ATTRIBUTIVE '
                         'NEGATIVE VAGUE MUTUAL'),
    ('WORD_CASE', 'LOWER UPPER'),
    ('WORD_TYPE', 'NOUN ADJECTIVE PRONOUN VERB PARTICIPLE INTEGER TEXT PREPOSITION'),
    ('INTEGER_FORM', 'SINGULAR DUAL COMPOSITE_DUAL PLURAL MIL_BIL'),
    ('VOICE', 'DIRECT REVERSE'),
    ('PREPOSITION_FORM', 'NORMAL ALTERNATIVE SPECIAL'),
    ('ADJECTIVE_FORM', 'FULL SHORT'),
    ('PARTICIPLE_FORM', 'FULL SHORT'),
    ('NOUN_FORM', 'NORMAL COUNTABLE'),
    ('DEPENDENCY_MODE', 'FULL SEMANTIC')]


class Bad(Exception):
    """The code returned something that is not of the promised kind."""


class Slow(BaseException):
    pass


def alarm(*_):
    raise Slow()


class Skip(Exception):
    """Nothing to observe: an inner part of the library has another shape."""


def text(value):
    if not isinstance(value, str):
        raise Bad('not a text: %.200r' % (value,))
    return [ord(c) for c in value]


def integer(value):
    if isinstance(value, bool) or not isinstance(value, int) or not -2**31 <= value < 2**31:
        raise Bad('not an integer: %.200r' % (value,))
    return value


def boolean(value):
    if not isinstance(value, bool):
        raise Bad('not a boolean: %.200r' % (value,))
    return value


def string(points):
    return ''.join(chr(c) for c in points)


def optional_text(points):
    return None if points == [-1] else string(points)


def is_document(x):
    return isinstance(x, dict) and all(isinstance(v, (str, int, list, dict)) for v in x.values())


class Session:

    def __init__(self, lib, rng):
        self.lib = lib
        self.rng = rng
        self.words, self.wfs, self.dicts, self.tpls, self.lexes = [], [], [], [], []
        self.pool = {}
        self.uses = 0
        self.mapping = {}
        self.loans = []
        self.results = []
        self.gone = {}  # what the forgotten words looked like
        self.intact = True

    # arguments
    def props(self, vector):
        """A Properties object; often the same object again, so that changes of arguments show."""
        key = tuple(vector)
        self.uses += 1
        if self.uses % 3 and key in self.pool:
            return self.pool[key]
        lib = self.lib
        made = lib.words.Properties(*[lib.record(k, v) for k, v in enumerate(vector, 1) if v])
        self.pool.setdefault(key, made)
        return made

    def optional(self, vector):
        return self.props(vector) if vector else None

    def item(self, x):
        if not x:
            return None
        if len(x) == 2:
            return self.lib.record(*x)
        return self.props(x)

    def externals(self, ev):
        # now and then the same mapping as before with other contents
        self.uses += 1
        given = self.mapping if self.uses % 2 else {}
        given.clear()
        given.update((string(e['n']), self.wfs[e['i'] - 1]) for e in ev['ext'])
        return self.lend(given)

    def names(self, ev):
        self.uses += 1
        names = [string(e) for e in ev['exts']]
        return self.lend([list, tuple, set, dict.fromkeys, list][self.uses % 5](names))

    def restrictions(self, ev):
        # any values: texts (one of them empty), numbers (one of them zero) or records, for each key its own sort
        records = self.lib.r.CASE.records + self.lib.r.GENDER.records + self.lib.r.ASPECT.records
        mark = [lambda r: 'r%d' % r if r > 1 else '', lambda r: r - 1, lambda r: records[r], lambda r: -r][zlib.crc32(('134%s' % string(ev['key'])).encode()) % 4]
        self.uses += 1
        kind = set if ev['op'] != 'ladd' and self.uses % 4 == 0 else frozenset
        return kind(mark(r) for r in ev['r'])

    def lend(self, container):
        """An argument that the call must leave as it is."""
        self.loans.append((container, copy.deepcopy(container) if is_document(container) else copy.copy(container)))
        return container

    def take_back(self):
        for now, before in self.loans:
            if isinstance(now, dict) and not is_document(now):
                same = list(now) == list(before) and all(now[k] is before[k] for k in now)
            else:
                same = now == before
            self.intact = self.intact and same
        self.loans = []

    def forget(self, but=()):
        """Lets go of everything made so far; the places of the objects are taken by new ones."""
        self.gone.update((i, self.looks(w)) for i, w in enumerate(self.words) if w is not None)
        for sort in ('words', 'wfs', 'dicts', 'tpls', 'lexes'):
            if sort not in but:
                objects = getattr(self, sort)
                objects[:] = [None] * len(objects)
        self.pool.clear()
        self.mapping = {}
        self.loans, self.results = [], []

    def keep(self, result):
        """A result that no later call may change."""
        self.results.append((result, copy.deepcopy(result) if is_document(result) else copy.copy(result)))
        return result

    # results
    def handle(self, word):
        if not isinstance(word, self.lib.words.Word):
            raise Bad('not a word: %.200r' % (word,))
        view = self.looks(word)
        for i, w in enumerate(self.words):
            if view == (self.gone.get(i) if w is None else self.looks(w)):
                return i + 1
        return 0

    def looks(self, word):
        return word.type, list(word.forms), self.lib.vector(word.properties)

    def entry(self, wf):
        lib = self.lib
        return {'x': text(wf.form), 'w': self.handle(wf.word), 'p': lib.vector(wf.properties),
                'fp': lib.vector(wf.form_properties)}


class Library:

    def __init__(self):
        from utg import constructors, dictionary, exceptions, lexicon, relations, templates
        from utg import transformators, words
        self.constructors, self.dictionary, self.exceptions = constructors, dictionary, exceptions
        self.lexicon, self.r, self.templates, self.transformators = lexicon, relations, templates, transformators
        self.words = words
        self.relations = []
        self.records = []
        for name, values in KINDS:
            relation = getattr(relations, name)
            self.relations.append(relation)
            self.records.append([getattr(relation, v) for v in values.split()])
        self.types = self.records[12]
        self.direct = getattr(transformators, 'transform', None)
        self.named = False
        if self.direct is not None:
            signature = inspect.signature(self.direct)
            try:
                signature.bind(slave_word=0, slave_propeties=0, master_form=0)
                self.named = True
            except TypeError:
                try:
                    signature.bind(0, 0, 0)
                except TypeError:
                    self.direct = None

    def transform(self, word, properties, master):
        """Agreement on its own: an inner function, so its name and parameters may change (templates show it as well)."""
        if self.direct is None:
            raise Skip()
        if self.named:
            return self.direct(slave_word=word, slave_propeties=properties, master_form=master)
        return self.direct(word, properties, master)

    def record(self, kind, value):
        return self.records[kind - 1][value - 1]

    def value(self, kind, record):
        if record is None:
            return 0
        found = [i for i, x in enumerate(self.records[kind - 1], 1) if x is record or x == record]
        return found[0] if found else 99

    def vector(self, properties):
        if not isinstance(properties, self.words.Properties):
            raise Bad('not properties: %.200r' % (properties,))
        return [self.value(k, properties.get(rel)) if properties.is_specified(rel) else 0
                for k, rel in enumerate(self.relations, 1)]

    def key(self, t, key):
        """A slot key (a tuple of records and Nones in schema order) as a vector of positions."""
        schema = self.types[t - 1].schema
        if len(key) != len(schema):
            raise Bad('key of another length: %.200r' % (key,))
        return [self.value(self.relations.index(rel) + 1, rec) for rel, rec in zip(schema, key)]

    def type(self, record):
        return self.value(13, record)


# documents
def facts_of(doc):
    return sorted([integer(int(k)), integer(v)] for k, v in doc.items())


def facts_in_order(doc, order=tuple(range(0, 30))):
    return facts_of(doc)


def make_facts(facts, js):
    return {(str(k) if js else k): v for k, v in facts}


def word_doc(doc):
    if sorted(doc) != ['forms', 'properties', 'type']:
        raise Bad('unexpected document: %.200r' % (doc,))
    return {'t': integer(doc['type']), 'f': [text(f) for f in doc['forms']], 'p': facts_of(doc['properties'])}


def template_doc(doc):
    if sorted(doc) != ['substitutions', 'template']:
        raise Bad('unexpected document: %.200r' % (doc,))
    subs = []
    for s in doc['substitutions']:
        if sorted(s) != ['dependencies', 'id']:
            raise Bad('unexpected document: %.200r' % (doc,))
        deps = [{'e': True, 'n': text(d), 'f': []} if isinstance(d, str) else
                {'e': False, 'n': [], 'f': facts_of(d)} for d in s['dependencies']]
        subs.append({'id': text(s['id']), 'deps': deps})
    fmt = [0] if doc['template'] is None else text(doc['template'])
    return {'fmt': fmt, 'subs': subs}


def make_template_doc(doc, js):
    fmt = '%s'.join(string(x).replace('%', '%%') for x in doc['lits'])
    return {'template': fmt,
            'substitutions': [{'id': string(s['id']),
                               'dependencies': [string(d['n']) if d['e'] else make_facts(d['f'], js)
                                                for d in s['deps']]}
                              for s in doc['subs']]}


def through_json(doc):
    return json.loads(json.dumps(doc))


def comparison(a, b):
    return {'eq': boolean(a == b), 'ne': boolean(a != b)}


def lexkeys(lib):
    # keys of a lexicon may be any values
    return {'int 0': 0, 'int 1': 1, 'int -1': -1, 'record': lib.r.CASE.GENITIVE, 'other record': lib.r.NUMBER.PLURAL,
            'pair': ('а', 'б'), 'empty': (), 'none': None, 'float': 0.5}


def lexkey(lib, name):
    return lexkeys(lib).get(name, name)


def keytext(lib, key):
    for name, value in lexkeys(lib).items():
        if type(value) is type(key) and value == key:
            return text(name)
    return text(key)


FOREIGN = [None, 0, 1, '', 'text', b'', 1.5, (), [], {}, frozenset(), object(), int, Exception('x')]

DRAWS = 240


class Lazy(dict):
    """Externals that ask other questions whenever something is looked up in them."""

    def __init__(self, given, between):
        super().__init__(given)
        self.between = between

    def __contains__(self, name):
        self.between()
        return super().__contains__(name)

    def __getitem__(self, name):
        self.between()
        return super().__getitem__(name)

    def get(self, name, *default):
        self.between()
        return super().get(name, *default)


def question(s, ev):
    """A question as a function: everything it needs is made now, nothing is shared with other questions."""
    lib, op = s.lib, ev['op']
    make = lib.words.Properties
    props = make(*[lib.record(k, v) for k, v in enumerate(ev.get('p', []), 1) if v])
    given = {string(e['n']): s.wfs[e['i'] - 1] for e in ev.get('ext', [])}
    d = s.dicts[ev['d'] - 1] if 'd' in ev else None
    w = s.words[ev['w'] - 1] if 'w' in ev else None
    f = s.wfs[ev['i'] - 1] if op in ('transform', 'peekwf') else None
    t = s.tpls[ev['i'] - 1] if op in ('render', 'undict', 'sert') else None
    x = string(ev['x']) if 'x' in ev else None
    key, rs = (lexkey(lib, string(ev['key'])), s.restrictions(ev)) if op == 'lget' else (None, None)
    n = (-1 if ev['n']['neg'] else 1) * int(''.join(map(str, ev['n']['d']))) if op == 'intq' else None

    def run(externals=None):
        externals = dict(given) if externals is None else externals(given)
        if op == 'render':
            return text(t.substitute(externals, d))
        if op == 'undict':
            return [text(x) for x in t.get_undictionaried_words(externals=externals, dictionary=d)]
        if op == 'sert':
            return template_doc(t.serialize())
        if op == 'form':
            return text(w.form(props))
        if op == 'transform':
            return lib.vector(lib.transform(w, props, f))
        if op == 'peekwf':
            return {'x': text(f.form), 'p': lib.vector(f.properties), 'fp': lib.vector(f.form_properties),
                    'cl': boolean(f.starts_with_consonant_cluster)}
        if op == 'attrs':
            return word_view(s, w)
        if op == 'intq':
            return integer_view(lib, lib.constructors.construct_integer(n))
        if op == 'has':
            return boolean(d.has_word(x))
        if op == 'get':
            return s.entry(d.get_word(x))
        if op == 'lget':
            return [([i for i, y in enumerate(s.tpls, 1) if y is z] or [0])[0]
                    for z in s.lexes[ev['l'] - 1].get_templates(key, rs)]
        raise RuntimeError('unknown operation %r' % op)

    def safely(externals=None):
        try:
            return {'k': 'ok', 'v': run(externals)}
        except Bad as e:
            return {'k': 'bad', 'v': str(e)}
        except Skip:
            return {'k': 'skip', 'v': 0}
        except RuntimeError as e:
            if 'unknown operation' in str(e):
                raise
            return failure(lib, e)
        except Slow:
            raise
        except Exception as e:
            return failure(lib, e)
    return safely


def in_turns(home, asks, turns, unit, seen):
    """Each question in a thread of its own; they take turns of so many lines of the library each."""
    order = [[a - 1, n * unit] for a, n in turns] + [[i, -1] for i in range(len(asks))]
    ready = threading.Condition()
    done = set()
    state = {'at': 0, 'left': order[0][1], 'free': False}

    def advance():
        state['at'] += 1
        while state['at'] < len(order) and order[state['at']][0] in done:
            state['at'] += 1
        if state['at'] == len(order):
            state['free'] = True
        else:
            state['left'] = order[state['at']][1]
        ready.notify_all()

    def mine(i):
        return state['free'] or order[state['at']][0] == i

    def await_turn(i):
        while not mine(i):
            # who has the turn may itself wait for another asker (a lock): then all go on freely
            if not ready.wait(1):
                state['free'] = True
                ready.notify_all()

    def asker(i):
        def line(frame, what, _):
            if what == 'line' and not state['free']:
                state['left'] -= 1
                if state['left'] == 0:
                    with ready:
                        advance()
                        await_turn(i)
            return line

        def tracer(frame, *_):
            return line if os.path.dirname(frame.f_code.co_filename) == home else None
        with ready:
            await_turn(i)
        sys.settrace(tracer)
        try:
            got = asks[i]()
        except Exception as e:  # an answer that cannot be recorded at all
            got = {'k': 'bad', 'v': repr(e)}
        finally:
            sys.settrace(None)
            with ready:
                done.add(i)
                if not state['free'] and order[state['at']][0] == i:
                    advance()
        seen[i].append(got)
    threads = [threading.Thread(target=asker, args=(i,), daemon=True) for i in range(len(asks))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()


def among(s, ev):
    """Several questions at once: in threads, or the others in the midst of the first one."""
    asks = [question(s, q) for q in ev['qs']]
    seen = [[] for _ in asks]
    if ev['how'] == 'threads':
        start = threading.Barrier(3)

        def asker(k):
            start.wait()
            for n in range(4 * len(asks)):
                i = (n * (k + 1) + k * 3) % len(asks)
                seen[i].append(asks[i]())
        threads = [threading.Thread(target=asker, args=(k,), daemon=True) for k in range(3)]
        before = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        finally:
            sys.setswitchinterval(before)
    elif ev['how'] == 'turns':
        in_turns(os.path.dirname(os.path.abspath(s.lib.words.__file__)), asks, ev['turns'], ev['unit'], seen)
    elif ev['how'] == 'lines':
        # as if another thread had its turn between two lines of the library
        home = os.path.dirname(os.path.abspath(s.lib.words.__file__))
        reached = turn = 0

        def line(frame, what, _):
            nonlocal reached, turn
            reached += 1
            if reached == stop and len(asks) > 1:
                i = turn % (len(asks) - 1) + 1
                turn += 1
                seen[i].append(asks[i]())
            return line

        def tracer(frame, *_):
            return line if os.path.dirname(frame.f_code.co_filename) == home else None
        stops = [ev['at']]
        while stops:
            stop, reached = stops.pop(), 0
            sys.settrace(tracer)
            try:
                got = asks[0]()
            finally:
                sys.settrace(None)
            seen[0].append(got)
            if stop == ev['at']:
                stops = sorted({1 + min(reached, 2000) * k // 80 for k in range(80)} - {stop})
    else:
        count = [0]

        def between():
            count[0] += 1
            if len(asks) > 1 and count[0] <= 60:
                i = 1 + count[0] % (len(asks) - 1)
                seen[i].append(asks[i]())
        seen[0].append(asks[0](lambda given: Lazy(given, between)))
    alone = [a() for a in asks]
    odd = [[i + 1, x] for i, xs in enumerate(seen) for x in xs if x != alone[i]]
    return {'alone': alone, 'same': not odd, 'odd': json.dumps(odd[:3])}


def integer_view(lib, f):
    return {'x': text(f.form), 'p': lib.vector(f.properties), 't': lib.type(f.word.type),
            'f': [text(x) for x in f.word.forms], 'wp': lib.vector(f.word.properties)}


def execute(s, ev):
    lib = s.lib
    op = ev['op']
    W, r = lib.words, lib.r

    def word():
        w = s.words[ev['w'] - 1]
        if w is None:
            raise Bad('the word could not be built')
        return w

    if op == 'word':
        s.words.append(None)
        kwargs = {'properties': s.props(ev['p'])} if ev['p'] else {}
        try:
            made = W.Word(type=lib.types[ev['t'] - 1], forms=[optional_text(f) for f in ev['f']], **kwargs)
        except BaseException:
            if ev.get('mayfail'):
                s.words.pop()
            raise
        s.words[-1] = made
        return 0
    if op == 'form':
        return text(word().form(s.props(ev['p'])))
    if op == 'normal':
        return text(word().normal_form())
    if op == 'allforms':
        return [{'x': text(f.form), 'p': lib.vector(f.properties), 'fp': lib.vector(f.form_properties)}
                for f in word().all_forms()]
    if op == 'attrs':
        return word_view(s, word())
    if op == 'syllables':
        return integer(word().number_of_syllables)
    if op == 'fluent':
        return boolean(word().has_fluent_vowel)
    if op == 'autofill':
        word().autofill_missed_forms()
        return [text(f) for f in word().forms]
    if op == 'wf':
        s.wfs.append(None)
        kwargs = {}
        if ev['p']:
            kwargs['properties'] = s.props(ev['p'])
        if ev['fp']:
            kwargs['form_properties'] = s.props(ev['fp'])
        s.wfs[-1] = W.WordForm(word(), **kwargs)
        return 0
    if op == 'peekwf':
        f = s.wfs[ev['i'] - 1]
        if ev['first']:
            cl = boolean(f.starts_with_consonant_cluster)
            x = text(f.form)
        else:
            x = text(f.form)
            cl = boolean(f.starts_with_consonant_cluster)
        return {'x': x, 'p': lib.vector(f.properties), 'fp': lib.vector(f.form_properties), 'cl': cl}
    if op in ('int', 'intq'):
        n = int(''.join(map(str, ev['n']['d'])))
        f = None
        try:
            f = lib.constructors.construct_integer(-n if ev['n']['neg'] else n)
        finally:
            if op == 'int':
                s.words.append(f.word if f is not None else None)
                s.wfs.append(f)
        return integer_view(lib, f)
    if op == 'transform':
        return lib.vector(lib.transform(word(), s.props(ev['p']), s.wfs[ev['i'] - 1]))

    if op == 'props':
        a = W.Properties(*[s.item(x) for x in ev['a']])
        before = lib.vector(a)
        b = a.clone(*[s.item(x) for x in ev['b']])
        return {'p': before, 'q': lib.vector(b), 'after': lib.vector(a), 'str': text(str(b)),
                'dist': integer(b.manhattan_distance()),
                'get': [lib.value(k, b.get(rel)) for k, rel in enumerate(lib.relations, 1)]}
    if op == 'peq':
        a = W.Properties(*[s.item(x) for x in ev['a']])
        b = W.Properties(*[s.item(x) for x in ev['b']])
        return dict(comparison(a, b), hq=hash(a) == hash(b))
    if op == 'rtp':
        a = W.Properties(*[s.item(x) for x in ev['a']])
        doc = s.keep(a.serialize())
        b = W.Properties.deserialize(through_json(doc))
        c = W.Properties.deserialize(doc)
        return {'doc': facts_of(doc), 'p': lib.vector(b), 'eq': boolean(a == b) and boolean(a == c),
                'same': b.serialize() == doc}
    if op == 'loadp':
        return lib.vector(W.Properties.deserialize(s.lend(make_facts(ev['f'], ev['js']))))

    if op == 'rtw':
        s.words.append(None)
        w = word()
        doc = w.serialize()
        kept = copy.deepcopy(doc)
        new = W.Word.deserialize(s.lend(through_json(doc)))
        s.words[-1] = new
        return {'doc': word_doc(kept), 'eq': boolean(w == new), 'same': new.serialize() == kept}
    if op == 'loadw':
        s.words.append(None)
        doc = {'type': ev['t'], 'forms': [optional_text(f) for f in ev['f']], 'properties': make_facts(ev['p'], ev['js'])}
        try:
            made = W.Word.deserialize(s.lend(doc))
        except BaseException:
            if ev.get('mayfail'):
                s.words.pop()
            raise
        s.words[-1] = made
        return 0
    if op == 'rtt':
        s.tpls.append(None)
        t = s.tpls[ev['i'] - 1]
        doc = t.serialize()
        kept = copy.deepcopy(doc)
        new = lib.templates.Template.deserialize(s.lend(through_json(doc)))
        s.tpls[-1] = new
        return {'doc': template_doc(kept), 'eq': boolean(t == new), 'same': new.serialize() == kept}
    if op == 'sert':
        return template_doc(s.keep(s.tpls[ev['i'] - 1].serialize()))
    if op == 'loadt':
        s.tpls.append(None)
        s.tpls[-1] = lib.templates.Template.deserialize(s.lend(make_template_doc(ev['doc'], ev['js'])))
        return 0

    if op == 'dict':
        s.dicts.append(None)
        ws = s.lend([s.words[i - 1] for i in ev['ws']])
        s.dicts[-1] = lib.dictionary.Dictionary(words=ws) if ws else lib.dictionary.Dictionary()
        return 0
    if op == 'add':
        s.dicts[ev['d'] - 1].add_word(word())
        return 0
    if op == 'has':
        return boolean(s.dicts[ev['d'] - 1].has_word(string(ev['x'])))
    if op == 'get':
        if not ev['keep']:
            return s.entry(s.dicts[ev['d'] - 1].get_word(string(ev['x'])))
        f = s.dicts[ev['d'] - 1].get_word(string(ev['x']))
        s.wfs.append(f)
        return s.entry(f)
    if op == 'probe':
        d = s.dicts[ev['d'] - 1]
        return [[s.entry(d.get_word(string(x)))] if boolean(d.has_word(string(x))) else [] for x in ev['xs']]
    if op == 'getwords':
        ws = s.dicts[ev['d'] - 1].get_words()
        s.keep(ws)
        return {'n': integer(len(ws)), 'ws': sorted({s.handle(w) for w in ws})}

    if op == 'tpl':
        t = lib.templates.Template()
        s.tpls.append(t)
        t.parse(string(ev['x']), externals=s.names(ev))
        return 0
    if op == 'parse':
        s.tpls[ev['i'] - 1].parse(string(ev['x']), externals=s.names(ev))
        return 0
    if op == 'undict':
        return [text(x) for x in s.keep(s.tpls[ev['i'] - 1].get_undictionaried_words(
            externals=s.externals(ev), dictionary=s.dicts[ev['d'] - 1]))]
    if op == 'tryrender' and s.tpls[ev['i'] - 1].serialize()['template'] is None:
        return []
    if op in ('render', 'tryrender'):
        return text(s.tpls[ev['i'] - 1].substitute(s.externals(ev), s.dicts[ev['d'] - 1]))

    if op == 'weq':
        a, b = s.words[ev['a'] - 1], s.words[ev['b'] - 1]
        return dict(comparison(a, b), hq=hash(a) == hash(b))
    if op == 'wfeq':
        a, b = s.wfs[ev['a'] - 1], s.wfs[ev['b'] - 1]
        return dict(comparison(a, b), hq=hash(a) == hash(b))
    if op == 'teq':
        return comparison(s.tpls[ev['a'] - 1], s.tpls[ev['b'] - 1])
    if op == 'foreign':
        x = {'w': s.words, 'f': s.wfs, 't': s.tpls}.get(ev['kind'])
        x = s.props([0] * 19 + [1]) if x is None else x[ev['i'] - 1]
        others = FOREIGN + [lib.lexicon.Lexicon(), lib.dictionary.Dictionary()]
        for kind, objects in (('p', [W.Properties(lib.record(20, 1))]), ('w', s.words), ('f', s.wfs), ('t', s.tpls)):
            if kind != ev['kind']:
                others += objects
        return all(comparison(x, y) == {'eq': False, 'ne': True} and
                   comparison(y, x) == {'eq': False, 'ne': True} for y in others)

    if op == 'lex':
        s.lexes.append(None)
        s.lexes[-1] = lib.lexicon.Lexicon()
        return 0
    if op in ('ladd', 'lhas', 'lget', 'lrand', 'lnear'):
        lex, key = s.lexes[ev['l'] - 1], lexkey(lib, string(ev['key']))
        given = {} if ev['dflt'] else {'restrictions': s.lend(s.restrictions(ev))}
        handle = lambda t: ([i for i, x in enumerate(s.tpls, 1) if x is t] or [0])[0]
        if op == 'ladd':
            lex.add_template(key, s.tpls[ev['t'] - 1], **given)
            return 0
        if op == 'lhas':
            return boolean(lex.has_key(key))
        if op == 'lget':
            return [handle(t) for t in s.keep(lex.get_templates(key, s.restrictions(ev)))]
        draw = lex.get_random_template if op == 'lrand' else lex.get_random_nearest_template
        # until every further equally likely template would have shown
        seen, n = set(), 0
        while n < max(DRAWS, 40 * len(seen)):
            try:
                seen.add(handle(draw(key, **given)))
            except lib.exceptions.NoTemplatesWithSpecifiedRestrictions as e:
                if set(e.arguments['restrictions']) != set(given.get('restrictions', ())):
                    raise Bad('names other restrictions: %.200r' % (e.arguments,))
                raise
            n += 1
        return sorted(seen)

    if op == 'snap':
        args = s.intact and all(now == before for now, before in s.results) and all(list(key) == lib.vector(p) for key, p in s.pool.items())
        return {'words': [word_view(s, w) for w in s.words],
                'wfs': [{'p': lib.vector(f.properties), 'fp': lib.vector(f.form_properties), 'x': text(f.form)}
                        for f in s.wfs],
                'tpls': [template_doc(t.serialize()) for t in s.tpls],
                'args': args}
    if op == 'forget':
        s.forget(ev.get('but', []))
        return 0
    if op == 'among':
        return among(s, ev)
    if op == 'layout':
        t = ev['t']
        record = lib.types[t - 1]
        keys = [lib.key(t, k) for k in W.Word.get_keys(record)]
        data = importlib.import_module('utg.data')
        wc = inv = keys
        if hasattr(data, 'WORDS_CACHES'):
            wc = sorted(data.WORDS_CACHES[record].items(), key=lambda x: x[1])
            if [i for _, i in wc] != list(range(len(wc))):
                raise Bad('slots are not numbered from 0: %.200r' % (wc,))
            wc = [lib.key(t, k) for k, _ in wc]
        if hasattr(data, 'INVERTED_WORDS_CACHES'):
            inv = [lib.key(t, k) for k in data.INVERTED_WORDS_CACHES[record]]
        return {'n': integer(W.Word.get_forms_number(record)), 'keys': keys, 'wc': wc, 'inv': inv}
    if op == 'testword':
        kwargs = {'properties': s.props(ev['p'])} if ev['p'] else {}
        w = W.Word.create_test_word(lib.types[ev['t'] - 1], prefix=string(ev['pre']), suffix=string(ev['suf']), **kwargs)
        p = lib.vector(w.properties)
        return {'t': lib.type(w.type), 'f': [text(x) for x in w.forms],
                'p': [p[k] if v else 0 for k, v in enumerate(ev['p'])] if ev['p'] else []}
    if op == 'relations':
        # read through the enumerations themselves, so that added kinds and values show as well
        kinds = {rel: (rec.value, rel) for rec in r.PROPERTY_TYPE.records for rel in [rec.relation]}
        out = []
        for rec in r.PROPERTY_TYPE.records:
            k = [i for i, rel in enumerate(lib.relations) if rel is rec.relation]
            if not k:
                raise Bad('unknown kind %r' % (rec,))
            names = KINDS[k[0]][1].split()
            out.append((k[0], {'n': integer(rec.value),
                               'vs': [integer(x.value) for x in rec.relation.records if x.name in names]
                                     if {x.name for x in rec.relation.records} == set(names) else [],
                               'ids': [text(x.verbose_id) for x in rec.relation.records]}))
        if [k for k, _ in out] != list(range(20)) or len(kinds) != 20:
            raise Bad('other kinds: %r' % ([k for k, _ in out],))
        return {'kinds': [v for _, v in out],
                'types': [{'n': integer(t.value), 'schema': [lib.relations.index(x) + 1 for x in t.schema],
                           'own': sorted([lib.relations.index(x) + 1, int(must)] for x, must in t.properties.items())}
                          for t in r.WORD_TYPE.records],
                'defaults': [lib.value(k, W.Properties().get(rel)) for k, rel in enumerate(lib.relations, 1)]}
    if op == 'migrate':
        new = s.keep(migration(ev['m'])(old_document(ev['doc'])))
        return {'t': OLD_TYPES.index(new['type']) + 1, 'f': [text(f) for f in new['forms']],
                'p': [[int(k), v] for k, v in new['properties'].items()]}
    if op == 'chain':
        doc = old_document(ev['doc'])
        for m in range(ev['m'] + 1, 10):
            doc = migration(m)(doc)
        doc.pop('patches', None)
        w = W.Word.deserialize(through_json(doc))
        return {'t': lib.type(w.type), 'f': [text(f) for f in w.forms], 'p': lib.vector(w.properties)}
    raise RuntimeError('unknown operation %r' % op)


def word_view(s, w):
    lib = s.lib
    if w is None:
        raise Bad('the word could not be built')
    return {'t': lib.type(w.type), 'f': [text(f) for f in w.forms], 'p': lib.vector(w.properties),
            'syl': integer(w.number_of_syllables), 'flu': boolean(w.has_fluent_vowel)}


MIGRATIONS = {1: 'm_0001_include_short_forms_in_full', 2: 'm_0002_countable_noun_form', 3: 'm_0003_change_verb_forms', 4: 'm_0004_new_preposition_form',
              5: 'm_0005_remove_time_participle_property', 6: 'm_0006_per_word_type_restrictions',
              7: 'm_0007_reduce_words_forms', 8: 'm_0008_lower_animiality_nearest_priority',
              9: 'm_0009_pronoun_modernization'}
OLD_TYPES = [0, 1, 2, 3, 4, 5, 6, 10]


def migration(m):
    return importlib.import_module('utg.migrations.' + MIGRATIONS[m]).migrate


def old_document(d):
    return {'type': OLD_TYPES[d['t'] - 1], 'forms': [string(f) for f in d['f']],
            'properties': {str(k): v for k, v in d['p']},
            'patches': {7: {'forms': [string(f) for f in d['pa']]}} if d['pa'] else {}}


CULPRIT = {'NoWordsFoundError': 'text', 'ExternalDependecyNotFoundError': 'dependency',
           'WrongDependencyFormatError': 'dependency', 'UnknownVerboseIdError': 'verbose_id',
           'UnknownLexiconKeyError': 'key', 'NoTemplatesWithSpecifiedRestrictions': 'key'}


def failure(lib, e):
    name = type(e).__name__
    if not isinstance(e, lib.exceptions.UtgError):
        return {'k': 'bad', 'v': '%s: %.300s' % (name, e)}
    try:
        if not isinstance(str(e), str):
            raise Bad('no message')
        if name == 'WrongFormsNumberError':
            a = [integer(e.arguments['wrong_number']), integer(e.arguments['expected_number'])]
        elif name in CULPRIT:
            a = keytext(lib, e.arguments['key']) if CULPRIT[name] == 'key' else text(e.arguments[CULPRIT[name]])
        else:
            a = []
    except Exception as x:
        return {'k': 'bad', 'v': '%s that does not name its culprit: %.200r' % (name, x)}
    return {'k': 'err', 'v': name, 'a': a}


def main(source, target, seed):
    rng = random.Random(seed)
    random.seed(seed)
    signal.signal(signal.SIGALRM, alarm)
    lib = Library()
    s = Session(lib, rng)
    with open(source) as src, open(target, 'w') as dst:
        for line in src:
            ev = json.loads(line)
            if ev['op'] == 'reset':
                if ev.get('fresh'):
                    for name in [x for x in sys.modules if x.split('.')[0] == 'utg']:
                        del sys.modules[name]
                    lib = Library()
                s = Session(lib, rng)
                ev['res'] = {'k': 'ok', 'v': 0}
            else:
                signal.alarm(60 if ev['op'] == 'among' else 20)
                try:
                    ev['res'] = {'k': 'ok', 'v': execute(s, ev)}
                except Slow:
                    ev['res'] = {'k': 'bad', 'v': 'no answer in time'}
                except Bad as e:
                    ev['res'] = {'k': 'bad', 'v': str(e)}
                except Skip:
                    ev['res'] = {'k': 'skip', 'v': 0}
                except RuntimeError as e:
                    if 'unknown operation' in str(e):
                        raise
                    ev['res'] = failure(lib, e)
                except Exception as e:
                    ev['res'] = failure(lib, e)
                finally:
                    signal.alarm(0)
                s.take_back()
            dst.write(json.dumps(ev) + '\n')


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2], int(sys.argv[3]))
