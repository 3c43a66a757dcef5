# coding: utf-8
"""Seeded scenario generators: sequences of calls (events) without results.

Nothing here looks at the library: kinds, values and slot counts are those of spec/Grammar.tla.
An event may carry "for": properties, besides those its operation always concerns, that its
failure would break (for instance the behaviour of a word that was loaded from a saved document).
"""
import itertools
import random
import re
import unicodedata

GCASE, ANIM, NUMBER, GENDER, VFORM, TIME, PERSON, ASPECT, ADJCAT, GRADE = range(1, 11)
PRONCAT, WCASE, WTYPE, INTFORM, VOICE, PREPFORM, ADJFORM, PARTFORM, NOUNFORM, MODE = range(11, 21)
NVALS = [6, 2, 2, 3, 3, 3, 3, 2, 3, 3, 10, 2, 8, 5, 2, 3, 2, 2, 2, 2]
KINDNUM = [0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20]
NOUN, ADJ, PRON, VERB, PART, INT, TEXT, PREP = range(1, 9)
TYPES = range(1, 9)
TYPENUM = [0, 1, 2, 3, 4, 5, 6, 10]
NSLOTS = [18, 101, 48, 20, 148, 1, 1, 3]
SCHEMA = [(NOUNFORM, NUMBER, GCASE), (ADJFORM, GRADE, ANIM, NUMBER, GCASE, GENDER), (ANIM, NUMBER, GCASE, GENDER),
          (VFORM, TIME, NUMBER, PERSON, GENDER), (PARTFORM, TIME, ANIM, NUMBER, GCASE, GENDER), (), (), (PREPFORM,)]
IDS = [x.split() for x in (
    'им рд дт вн тв пр', 'од но', 'ед мн', 'мр ср жр', 'инф изъяв пов', 'прш нст буд', '1л 2л 3л', 'несов сов',
    'кач отн прит', 'пол сравн прев', 'личн возвр притяж вопр относ указат опред отриц неопр взаимн',
    'строч загл', 'сущ прил мест гл прич целое текст предл', 'цо цд цсд цост цмм', 'прям взв', 'осн алт спц',
    'полнприл крприл', 'полнприч крприч', 'нс счт', 'пзв сзв')]
ALLIDS = [i for ids in IDS for i in ids]

NOPROPS = [0] * 20
SPACES = [' ', '\t', '\n', '\u00a0', '\u2003', '\u3000', '  ']


def T(s):
    return [ord(c) for c in s]


def vec(*facts):
    v = [0] * 20
    for k, x in facts:
        v[k - 1] = x
    return v


def number(n):
    return {'neg': n < 0, 'd': [int(c) for c in str(abs(n))]}


class Gen:
    """A session under construction; knows only how many objects of each sort it has made."""

    def __init__(self, seed, suite):
        self.rng = random.Random('%s:%s' % (suite, seed))
        self.suite = suite
        self.done = []
        self.start()

    def start(self, label=None):
        if getattr(self, 'events', None):
            self.done.append({'suite': self.suite, 'events': self.events})
            if self.fresh:
                self.done[-1]['fresh'] = True  # the library is loaded anew before the session
        self.fresh = False
        self.events = []
        self.n = {'words': 0, 'wfs': 0, 'dicts': 0, 'tpls': 0, 'lexes': 0}
        self.types = []
        self.texts = []

    def finish(self):
        self.start()
        return self.done

    def ev(self, op, **args):
        tags = args.pop('tags', None)
        e = dict(op=op, **args)
        if tags:
            e['for'] = list(tags)
        self.events.append(e)
        return e

    def made(self, sort):
        self.n[sort] += 1
        return self.n[sort]

    # objects
    def word(self, t, forms, p=(), **kw):
        self.ev('word', t=t, f=[T(f) if isinstance(f, str) else f for f in forms], p=list(p), **kw)
        if len(forms) != NSLOTS[t - 1]:
            self.events[-1]['mayfail'] = 1
            return None
        self.types.append(t)
        return self.made('words')

    def wf(self, w, p=(), fp=(), **kw):
        self.ev('wf', w=w, p=list(p), fp=list(fp), **kw)
        return self.made('wfs')

    def int(self, n, **kw):
        self.ev('int', n=number(n), **kw)
        self.types.append(INT)
        self.made('words')
        return self.made('wfs')

    def dict(self, ws, **kw):
        self.ev('dict', ws=list(ws), **kw)
        return self.made('dicts')

    def tpl(self, x, exts=(), **kw):
        self.ev('tpl', x=T(x), exts=[T(e) for e in exts], **kw)
        return self.made('tpls')

    def lex(self):
        self.ev('lex', l=0, key=[], r=[], dflt=False)
        return self.made('lexes')

    def snap(self, **kw):
        self.ev('snap', **kw)

    # random values
    def some(self, k):
        return self.rng.randint(1, NVALS[k - 1])

    def props(self, kinds=None, chance=0.3):
        """A random property set."""
        v = [0] * 20
        for k in kinds or range(1, 21):
            if self.rng.random() < chance:
                v[k - 1] = self.some(k)
        return v

    LETTERS = 'абвгдеёжзийклмнопрстуфхцчшщъыьэюя'

    def text(self, lo=1, hi=5, letters=None):
        return ''.join(self.rng.choice(letters or self.LETTERS) for _ in range(self.rng.randint(lo, hi)))

    ODD = list('%%%[]|,.!?-"\'\\{}()0123456789sdr \t\nXYZabcйцуЙЦУЁё№—…«»') + ['%s', '%%', '%(a)s', '%d', '\\n', '\u2603',
                                                                             '\U0001f600', '\u0301', '{0}', '\r\n', '[]', ']', '[[', ']]',
        '\u2028', '\x85', '\0', '\u200b', '\ufeff', '\x0b', '\x1f', 'и\u0306', '\u00ad', 'ß', 'ẞ', 'µ', 'ÿ', 'ґ', 'Ґ', 'ї', 'Ї',
        'Ў', 'ә', 'Ӏ', 'Ӂ', '&amp;', '<b>', '$x', '${x}', '\\1', '\\g<0>', 'é', 'É', 'e\u0301']

    def oddtext(self, lo=0, hi=6):
        return ''.join(self.rng.choice(self.ODD) for _ in range(self.rng.randint(lo, hi)))

    def forms(self, t, style=None):
        n = NSLOTS[t - 1]
        r = self.rng
        style = style or r.choice(['slots', 'slots', 'pool', 'stem', 'sparse', 'odd'])
        if style == 'slots':
            stem = self.text(1, 3)
            return ['%s%d' % (stem, i) for i in range(n)]
        if style == 'pool':
            pool = [self.text(1, 3, 'авеоыСт') for _ in range(r.randint(1, 4))]
            return [r.choice(pool) for _ in range(n)]
        if style == 'stem':
            stem = self.text(1, 4)
            ends = ['', 'а', 'у', 'ом', 'е', 'ы', 'ов', 'ам', 'ами', 'ах']
            return [stem + r.choice(ends) for _ in range(n)]
        if style == 'sparse':
            stem = self.text(1, 2)
            return ['' if r.random() < 0.4 else '%s%d' % (stem, i % 7) for i in range(n)]
        return [self.oddtext(0, 4) for _ in range(n)]

    OWN = {NOUN: (ANIM, GENDER, NUMBER), ADJ: (ADJCAT,), PRON: (PRONCAT, PERSON), VERB: (ASPECT, VOICE),
           PART: (ASPECT, VOICE), INT: (NUMBER, INTFORM), TEXT: (), PREP: ()}

    def own(self, t, wild=0.15):
        """Own properties of a word: mostly those its part of speech has, sometimes any."""
        r = self.rng
        if r.random() < 0.3:
            return []
        kinds = list(self.OWN[t])
        if r.random() < wild:
            kinds += list(SCHEMA[t - 1]) + [WCASE, MODE]
        return self.props(kinds, 0.6) if kinds else list(NOPROPS)

    def anyword(self, t=None, style=None, small=False, p=None, **kw):
        if t is None:
            t = self.rng.choice([NOUN, PREP, TEXT, VERB, PRON, INT] if small else list(TYPES))
        f = self.forms(t, style)
        w = self.word(t, f, self.own(t) if p is None else p, **kw)
        self.texts += f
        return w

    def request(self, t, noise=0.15):
        """A request for a form: schema kinds often, others sometimes."""
        v = self.props(chance=noise)
        for k in SCHEMA[t - 1]:
            if self.rng.random() < 0.7:
                v[k - 1] = self.some(k)
        return v

    def items(self, hi=4):
        out = []
        for _ in range(self.rng.randint(0, hi)):
            x = self.rng.random()
            if x < 0.1:
                out.append([])
            elif x < 0.6:
                k = self.rng.randint(1, 20)
                out.append([k, self.some(k)])
            else:
                out.append(self.props(chance=0.25))
        return out

    # markup
    def spaced(self, s):
        r = self.rng
        x = r.random()
        if x < 0.6:
            return s
        return (r.choice(SPACES) if r.random() < 0.5 else '') + s + (r.choice(SPACES) if r.random() < 0.5 else '')

    def recase(self, s):
        x = self.rng.random()
        if x < 0.7:
            return s
        if x < 0.85:
            return s.upper()
        return s[:1].upper() + s[1:]

    def idlist(self, ids=None):
        r = self.rng
        n = r.choice([1, 1, 1, 2, 2, 3])
        parts = [self.spaced(self.recase(r.choice(ids or ALLIDS))) for _ in range(n)]
        if r.random() < 0.1:
            parts.insert(r.randint(0, len(parts)), r.choice(['', ' ']))
        return ','.join(parts)

    def variable(self, name, exts, ids=None, depth=2, bad=0.0):
        r = self.rng
        parts = [self.spaced(self.recase(name))]
        for _ in range(r.choice([0, 1, 1, 2, depth])):
            x = r.random()
            if x < bad:
                parts.append(r.choice(['ххх', 'р д', 'рд;мн', 'нет,рд', 'hero2', '%', 'рд мн', r.choice(FORMATS)]))
            elif exts and x < 0.5:
                parts.append(self.spaced(self.recase(r.choice(exts))))
            else:
                parts.append(self.idlist(ids))
        return '[' + '|'.join(parts) + ']'

    def literal(self, odd=0.4):
        r = self.rng
        if r.random() < odd:
            # no "[" ... "]" pair can arise across the variables: brackets that would join are dropped
            return self.oddtext(0, 4).replace('[', '')
        return r.choice(['', ' ', ', ', ' и ', '. ', '%', ' — ', '%s', ' ] '])


def chunks(seq, n):
    for i in range(0, len(seq), n):
        yield seq[i:i + n]


# -------------------------------------------------------------------------------------------------
# suites

def layout(seed, scale):
    g = Gen(seed, 'layout')
    for t in TYPES:
        g.ev('layout', t=t)
    for t in TYPES:
        n = NSLOTS[t - 1]
        for m in sorted({0, 1, n - 1, n, n + 1, 2 * n, 17, 18, 19, 47, 48, 49, 100, 101, 102, 147, 148, 149}):
            if m >= 0:
                g.word(t, ['ф%d' % i for i in range(m)], [] if m % 2 else list(NOPROPS))
    g.start()
    # a saved word is a word only with the right number of forms
    for t in TYPES:
        n = NSLOTS[t - 1]
        for m in sorted({0, 1, n - 1, n + 1, 2 * n, 12, 18, 48, 72, 101, 148}):
            if m >= 0 and m != n:
                g.ev('loadw', t=TYPENUM[t - 1], f=[T('ф%d' % i) for i in range(m)], p=[[1, 0]], js=m % 2 == 0, mayfail=1,
                     tags=['U01'])
    g.start()
    for t in TYPES:
        w = g.word(t, ['%s%d' % ('абвгдежз'[t - 1], i) for i in range(NSLOTS[t - 1])])
        g.ev('allforms', w=w)
        g.ev('normal', w=w)
        g.ev('attrs', w=w)
        for pre, suf, p in (('w-', '', []), ('', '', vec([NUMBER, 2], [ASPECT, 2])), ('%', ',', vec([WCASE, 2]))):
            g.ev('testword', t=t, pre=T(pre), suf=T(suf), p=p)
        for p in ([WCASE, 2], [NUMBER, 2], [GCASE, 2], [TIME, 2]):
            w = g.word(t, ['%s%d' % ('абвгдежз'[t - 1], i) for i in range(NSLOTS[t - 1])], vec(p))
            g.ev('allforms', w=w)
    for t in TYPES:
        g.ev('layout', t=t)
    return g.finish()


def relations(seed, scale):
    g = Gen(seed, 'relations')
    g.ev('relations')
    for t in TYPES:
        g.ev('layout', t=t, tags=['U05'])
    # every saved number and every identifier, alone
    for k in range(1, 21):
        for v in range(1, NVALS[k - 1] + 1):
            g.ev('rtp', a=[[k, v]], tags=['U05'])
            g.ev('props', a=[[k, v]], b=[], tags=['U05'])
            i = g.tpl('[а|%s]' % IDS[k - 1][v - 1], tags=['U05'])
            g.ev('sert', i=i, tags=['U05'])
    for num in range(-1, 23):
        for val in range(-1, 12):
            g.ev('loadp', f=[[num, val]], js=num % 2 == 0, tags=['U05'])
    for t in TYPES:
        g.ev('loadw', t=TYPENUM[t - 1], f=[T('ф%d' % i) for i in range(NSLOTS[t - 1])], p=[], js=True, tags=['U05'])
        g.types.append(t)
        w = g.made('words')
        g.ev('attrs', w=w, tags=['U05'])
        g.ev('rtw', w=w, tags=['U05'])
        g.types.append(t)
        g.made('words')
    for bad in ('имя', 'р', 'кр', 'инфи', '1', '4л', 'согл', 'ё', 'нс.', 'нс счт'):
        g.tpl('[а|%s]' % bad, tags=['U05'])
    return g.finish()


def forms(seed, scale):
    """Random words and requests: own properties, capitals, word forms with form properties."""
    g = Gen(seed, 'forms')
    r = g.rng
    for i in range(36 * scale):
        t = list(TYPES)[i % 8]
        w = g.anyword(t, p=g.own(t, wild=0.5))
        for _ in range(14):
            g.ev('form', w=w, p=g.request(t))
        g.ev('normal', w=w)
        if i % 9 == 0:
            g.ev('allforms', w=w)
        for _ in range(5):
            p, fp = [g.request(t) if r.random() < 0.65 else r.choice([[], list(NOPROPS)]) for _ in range(2)]
            j = g.wf(w, p, fp)
            g.ev('peekwf', i=j, first=g.rng.random() < 0.5)
        for k in list(TYPES) if i % 2 else (INT, TEXT, PREP):
            # capitals of words of every part of speech, asked for by either source
            if k in (ADJ, PART) and r.random() < 0.85:
                continue
            v = g.word(k, [r.choice(['два', 'пара', 'ёж', 'Ян', 'x', '', '7ой', '«а»', 'éс'])] * NSLOTS[k - 1], r.choice([[], [], g.own(k, wild=0.5)]))
            for _ in range(2):
                p, fp = [r.choice([[], vec([WCASE, 2]), vec([WCASE, 1]), g.request(k)]) for _ in range(2)]
                g.ev('peekwf', i=g.wf(v, p, fp), first=r.random() < 0.5)
        if i % 4 == 3:
            sharing(g, r.sample([NOUN, VERB, PRON, PREP, TEXT], 3) if i % 8 == 3 else r.choice([[ADJ, PART], [PART, ADJ]]))
            g.snap()
            g.start()
    return g.finish()


def properties(seed, scale):
    g = Gen(seed, 'properties')
    r = g.rng
    for i in range(700 * scale):
        a, b = g.items(), g.items()
        g.ev('props', a=a, b=b)
        if i % 2:
            g.ev('peq', a=a, b=b)
        # the same facts in another order or through other objects
        c = list(a)
        r.shuffle(c)
        g.ev('peq', a=a, b=c)
        g.ev('peq', a=a, b=[x for y in a for x in ([y] if not y or len(y) == 2 else
                                                    [[k, v] for k, v in enumerate(y, 1) if v])])
        if a:
            g.ev('peq', a=a, b=a[:-1])
        # a default value is not the same as an unspecified one
        k = r.randint(1, 20)
        g.ev('peq', a=a, b=a + [[k, 1]])
        if i % 60 == 59:
            g.ev('foreign', kind='p', i=0)
            g.snap()
            g.start()
    return g.finish()


def defaults(seed, scale):
    """Every kind: each value over each value, specified or not, against the default."""
    g = Gen(seed, 'defaults')
    for k in range(1, 21):
        for a in range(0, NVALS[k - 1] + 1):
            for b in range(0, NVALS[k - 1] + 1):
                x, y = ([k, a] if a else []), ([k, b] if b else [])
                if k in (PRONCAT, WTYPE) and a > 3 and b > 3 and a != b and scale == 1:
                    continue
                g.ev('props', a=[x], b=[y])
                g.ev('props', a=[vec([k, a])], b=[vec([k, b])])
                g.ev('peq', a=[x], b=[y])
        g.snap()
        g.start()
    return g.finish()


def saved(seed, scale):
    g = Gen(seed, 'saved')
    r = g.rng
    for i in range(26 * scale):
        tag = ['U04']
        for _ in range(12):
            g.ev('rtp', a=g.items())
        for _ in range(8):
            f = {}
            for _ in range(r.randint(0, 6)):
                k = r.randint(0, 19)
                f[KINDNUM[k]] = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 10, r.randint(0, NVALS[k] - 1), 99])
            if r.random() < 0.4:
                f[r.choice([8, 21, 77, 1000])] = r.randint(0, 5)
            g.ev('loadp', f=[[k, v] for k, v in f.items()], js=r.random() < 0.7)
        t = list(TYPES)[i % 8]
        w = g.anyword(t, style=['slots', 'odd', 'sparse'][i % 3], p=g.own(t, wild=0.4))
        g.ev('rtw', w=w)
        g.types.append(t)
        w2 = g.made('words')
        f = g.forms(t)
        g.ev('loadw', t=TYPENUM[t - 1], f=[T(x) for x in f],
             p=[[KINDNUM[k - 1], r.randint(0, NVALS[k - 1])] for k in r.sample(range(1, 21), 3)] + [[8, 1]],
             js=r.random() < 0.7)
        g.types.append(t)
        w3 = g.made('words')
        short = [T(x) for x in f[:-1]]
        g.ev('loadw', t=TYPENUM[t - 1], f=short, p=[], js=True, mayfail=1)
        g.ev('rtw', w=w3)
        g.types.append(t)
        w4 = g.made('words')
        for x in (w2, w3, w4):
            g.ev('attrs', w=x, tags=tag)
            g.ev('normal', w=x, tags=tag)
            for _ in range(4):
                g.ev('form', w=x, p=g.request(t), tags=tag)
        g.ev('weq', a=w, b=w2, tags=tag)
        g.ev('weq', a=w3, b=w4, tags=tag)
        g.ev('weq', a=w, b=w3, tags=tag)
        # templates: loaded ones render as the original
        n = g.anyword(NOUN, style='slots', p=[])
        d = g.dict([n, w2])
        e = g.wf(n, g.request(NOUN))
        m = g.int(r.choice([1, 2, 5, 22, 1000000]))
        ids = [x for x in g.texts if x and x == x.lower() and x.strip() == x and not set(x) & set('[]|')][-8:]
        exts = ['герой', 'число'] + ([''] if i % 3 == 0 else [r.choice(ALLIDS)] if i % 3 == 1 else [])
        x = ''.join(g.literal() + g.variable(r.choice(ids + exts[:2] + ['нет']) if ids else 'герой', exts)
                    for _ in range(r.randint(0, 4))) + g.literal()
        if i % 3 == 0:
            x += '[герой|%s]' % r.choice(['', ' ', '|вн', 'дт|'])
        elif i % 3 == 1:
            x += '[герой|%s]' % r.choice([exts[2], exts[2] + '|вн', 'дт|' + exts[2], exts[2] + ',мн'])
        tpl = g.tpl(x, exts)
        g.ev('rtt', i=tpl)
        loaded = g.made('tpls')
        g.ev('rtt', i=loaded)
        again = g.made('tpls')
        g.ev('loadt', doc={'lits': [T(g.oddtext(0, 3)) for _ in range(3)],
                           'subs': [{'id': T('герой'), 'deps': [{'e': True, 'n': T('число'), 'f': []},
                                                               {'e': False, 'n': [], 'f': [[0, r.randint(0, 7)], [8, 0], [2, 1]]}]},
                                    {'id': T(r.choice(ids) if ids else 'число'), 'deps': [{'e': False, 'n': [], 'f': []}]}]},
             js=r.random() < 0.7)
        built = g.made('tpls')
        ext = [{'n': T('герой'), 'i': e}, {'n': T('число'), 'i': m}] + [{'n': T(n), 'i': e} for n in exts[2:]]
        for y in (tpl, loaded, again, built):
            g.ev('tryrender', i=y, ext=ext, d=d, tags=tag)
            g.ev('undict', i=y, ext=ext[:1], d=d, tags=tag)
            g.ev('sert', i=y, tags=tag)
        g.ev('teq', a=tpl, b=loaded, tags=tag)
        g.ev('teq', a=tpl, b=built, tags=tag)
        g.snap(tags=tag)
        g.start()
    return g.finish()


def scene(g, words=3, exts=2, ints=0.4, types=None, small=True, style=None):
    """A dictionary and externals; returns (dict, external names, ext argument, known ids)."""
    r = g.rng
    ws = [g.anyword(r.choice(types) if types else None, small=small, style=style) for _ in range(words)]
    d = g.dict(ws)
    ids = sorted({x for x in g.texts if x and x == x.lower() and x.strip() == x and not set(x) & set('[]|')})
    names = r.sample(['герой', 'моб', 'mob', 'число', 'hero_1', 'а', 'x'], exts)
    if names and ids and r.random() < 0.3:
        names[-1] = r.choice(ids)  # an external named like a word of the dictionary
    if names and r.random() < 0.15:
        names[0] = r.choice(ALLIDS + ['', 'мн,рд', 'ед'])
    ext = []
    for n in names:
        if r.random() < ints:
            i = g.int(r.choice([0, 1, 2, 4, 5, 11, 12, 21, 22, 101, 111, 1000000, -1, -3]))
        else:
            w = r.choice(ws)
            t = g.types[w - 1]
            i = g.wf(w, g.request(t) if r.random() < 0.7 else [], g.request(t) if r.random() < 0.3 else [])
        if {'n': T(n)} not in [{'n': e['n']} for e in ext]:
            ext.append({'n': T(n), 'i': i})
    return d, names, ext, ids


def literals(seed, scale):
    """Literal text: every odd character around variables whose words also contain odd characters."""
    g = Gen(seed, 'literals')
    r = g.rng
    tag = ['U06']
    for i in range(60 * scale):
        w = g.word(TEXT, [r.choice(['%', '%s', '[x]', '[герой]', 'a%%b', '\\1', '', '%(x)s', '\n', '{}', 'слово', g.oddtext(1, 3),
                                 'а' + r.choice(g.ODD) + 'б'])])
        v = g.word(TEXT, ['ключ'])
        d = g.dict([w, v])
        names = ['герой', '%', 'a%b', '%s', 'x']
        ext = [{'n': T(n), 'i': g.wf(r.choice([w, v]))} for n in names]
        for _ in range(10):
            parts = []
            for _ in range(r.randint(0, 5)):
                if r.random() < 0.5:
                    parts.append(g.oddtext(0, 4))
                else:
                    n = r.choice(names + ['ключ'])
                    parts.append('[%s%s]' % (g.spaced(n), r.choice(['', '', '|рд', '|герой', '|%s', '|x|мн'])))
            x = ''.join(parts)
            t = g.tpl(x, names, tags=tag)
            g.ev('sert', i=t, tags=tag)
            g.ev('tryrender', i=t, ext=ext, d=d, tags=tag)
        g.start()
    # each odd character in a word and in the literal text, at the beginning, inside and at the end
    for part in chunks(g.ODD + ['\xa0', '\u2009', '\u3000', '\x1c', '\x7f', '\ud7ff', '\uffff', '\ufffd', '\u200d', '\u202e'], 24):
        for c in part:
            ws = [g.word(TEXT, [x]) for x in (c, c + 'ж', 'ж' + c + c + 'ж', 'ж' + c)]
            d = g.dict(ws)
            ext = [{'n': T('э%d' % j), 'i': g.wf(w)} for j, w in enumerate(ws)]
            t = g.tpl(''.join(['[э%d]' % j for j in range(4)]), ['э%d' % j for j in range(4)], tags=tag)
            g.ev('tryrender', i=t, ext=ext, d=d, tags=tag)
            if not set(c) & set('[]'):
                t = g.tpl('%s[э0]%s[э0]%s%sж[э0]' % (c, c, c, c), ['э0'], tags=tag)
                g.ev('sert', i=t, tags=tag)
                g.ev('tryrender', i=t, ext=ext, d=d, tags=tag)
        g.start()
    return g.finish()


def rawtexts(texts, suite, tags, names=('a',)):
    """Sessions that parse, save and render each text (given by the model)."""
    g = Gen(0, suite)
    for part in chunks(texts, 60):
        w = g.word(TEXT, ['слово'])
        a = g.word(NOUN, ['н%d' % i for i in range(18)])
        d = g.dict([w, a])
        ext = [{'n': T('a'), 'i': g.wf(a)}, {'n': T('%s'), 'i': g.wf(w)}]
        for x in part:
            g.ev('tpl', x=x, exts=[T(n) for n in names], tags=tags)
            t = g.made('tpls')
            g.ev('sert', i=t, tags=tags)
            g.ev('tryrender', i=t, ext=ext, d=d, tags=tags)
        g.start()
    return g.finish()


def markup(seed, scale):
    g = Gen(seed, 'markup')
    r = g.rng
    for i in range(80 * scale):
        names = r.sample(['герой', 'моб', 'mob', 'рд', 'x y', '1л', 'мн,рд', 'ё', '', 'Hero', 'ГЕРОЙ', 'Рд', 'a  b', 'a\tb', ' герой', 'мн ',
                          'РД,мн', '[', '1Л', 'рд,', ',', '%', 'a\nb', 'герой%', 'е', 'x  ', 'x\xa0y'], r.choice([0, 1, 2, 3, 4, 6]))
        for _ in range(12):
            n = r.randint(0, 3)
            x = g.literal()
            for _ in range(n):
                name = r.choice(['слово', 'Слово', 'СЛОВО', 'ёж', 'ЁЖ', 'x y', 'а|', '', ' ', '\n', '1', '%', 'мн'] + names)
                if r.random() < 0.15:
                    name = r.choice(['groß', 'Straße', 'ſ', 'ﬁ', 'µ', 'ÿ', 'Éa', 'e\u0301', 'и\u0306', 'ИЙ', 'а  б', 'а\tб', 'а\xa0б',
                                     'ё\u0301', 'ѐ', 'Ґ', 'ab', 'Ab', 'aB', 'а"', "'а'", 'а,б', '-а', 'а-Б', '%s', '%%', '\\', 'а.', '0'])
                x += g.variable(name, names, bad=0.06, depth=4) + g.literal()
            t = g.tpl(x, names)
            g.ev('sert', i=t)
        g.start()
    return g.finish()


def rendering(seed, scale, suite='rendering', tags=(), bad=0.06):
    g = Gen(seed, suite)
    r = g.rng
    for i in range(70 * scale):
        big = i % 10 == 9
        d, names, ext, ids = scene(g, words=r.randint(1, 4), exts=r.randint(0, 3), small=not big,
                                   style=r.choice([None, 'slots', 'slots', 'stem']))
        for _ in range(9):
            x = g.literal(0.2)
            for _ in range(r.randint(1, 3)):
                y = r.random()
                name = r.choice(ids) if ids and y < 0.65 else r.choice(names) if names and y < 0.94 else 'нетслова'
                x += g.variable(name, names, depth=3) + g.literal(0.2)
            t = g.tpl(x, names, tags=tags)
            given = [e for e in ext if r.random() > bad]
            r.shuffle(given)
            given = decoys(g, given)
            g.ev('undict', i=t, ext=given, d=d, tags=tags)
            g.ev('tryrender', i=t, ext=given, d=d, tags=tags)
        g.snap()
        g.start()
    return g.finish()


def precedence(seed, scale):
    """Conflicting sources of the same property: the form, dependencies, the word, agreement."""
    g = Gen(seed, 'precedence')
    r = g.rng
    for i in range(40 * scale):
        t = r.choice([NOUN, VERB, PRON, ADJ, PART, PREP])
        kinds = list(SCHEMA[t - 1]) + [WCASE, MODE, INTFORM]
        own = [k for k in kinds if r.random() < 0.15]
        w = g.word(t, g.forms(t, 'slots'), g.props(own, 1.0) if own else [])
        g.texts = []
        m = g.anyword(NOUN, style='slots')
        d = g.dict([w])
        exts = []
        for n in ('первый', 'второй', 'третий'):
            if r.random() < 0.3:
                j = g.int(r.choice([1, 2, 5, 21, 22, 1000000]))
            else:
                j = g.wf(m, g.props(kinds, 0.35), g.props(kinds, 0.2) if r.random() < 0.4 else [])
            exts.append({'n': T(n), 'i': j})
        me = g.wf(w, g.props(kinds, 0.4), g.props(kinds, 0.4))
        exts.append({'n': T('сам'), 'i': me})
        names = ['первый', 'второй', 'третий', 'сам']
        ids = [IDS[k - 1][v] for k in kinds for v in range(NVALS[k - 1])]
        for _ in range(16):
            stem = g.events[0]['f']
            name = r.choice(['сам', 'первый', ''.join(map(chr, r.choice(stem)))])
            x = g.variable(name, names, ids=ids, depth=4)
            n = g.tpl(x, names)
            g.ev('tryrender', i=n, ext=decoys(g, exts), d=d)
        g.start()
    # capitals and own requests of words of every part of speech, with and without dependencies
    for t in range(1, 9):
        names = ['э', 'ю', 'сам']
        mine = ['%s%s' % (g.text(2, 3, 'бвгдкл'), 'абвгд'[k % 5]) for k in range(NSLOTS[t - 1])]
        k = r.choice(SCHEMA[t - 1] or [NUMBER])
        other = g.wf(g.word(TEXT, ['я']), vec([WCASE, r.randint(1, 2)]))
        d = g.dict([])
        tpls = [g.tpl(x, names) for x in ('[э]', '[Э]', '[э|загл]', '[Э|строч]', '[э|ю]', '[э|сам]')]
        for own, p, fp in (([], [WCASE, 2], []), ([], [], [WCASE, 2]), ([WCASE, 2], [], []), ([WCASE, 1], [WCASE, 2], []),
                           ([], [k, r.randint(2, NVALS[k - 1])], []), ([], [WCASE, 2], [WCASE, 1])):
            j = g.wf(g.word(t, mine, vec(own) if own else ()), vec(p) if p else [], vec(fp) if fp else [])
            ext = [{'n': T('э'), 'i': j}, {'n': T('ю'), 'i': other}, {'n': T('сам'), 'i': j}]
            for x in tpls:
                g.ev('tryrender', i=x, ext=ext, d=d, tags=['U08'])
        g.start()
    return g.finish()


def readme(seed, scale):
    """The examples of the documentation."""
    g = Gen(seed, 'readme')
    tags = ['U06', 'U07', 'U08', 'U09', 'U15']
    verb = ['укусить', 'укусил', 'укусило', 'укусила', 'укусили'] + ['укус%d' % i for i in range(15)]
    hyena = ['гиена', 'гиены', 'гиене', 'гиену', 'гиеной', 'гиене', 'гиены', 'гиен', 'гиенам', 'гиен', 'гиенами',
             'гиенах', 'гиены', 'гиен', 'гиенам', 'гиен', 'гиенами', 'гиенах']
    ghost = ['привидение', 'привидения', 'привидению', 'привидение', 'привидением', 'привидении', 'привидения',
             'привидений', 'привидениям', 'привидения', 'привидениями', 'привидениях', 'привидения', 'привидений',
             'привидениям', 'привидения', 'привидениями', 'привидениях']
    v = g.word(VERB, verb, vec([ASPECT, 2], [VOICE, 1]))
    h = g.word(NOUN, hyena, vec([ANIM, 1], [GENDER, 3]))
    k = g.word(NOUN, ghost, vec([ANIM, 1], [GENDER, 2]))
    pl = g.word(NOUN, ['светлячок%d' % i for i in range(18)], vec([ANIM, 1], [GENDER, 1], [NUMBER, 2]))
    pr = g.word(PREP, ['в', 'во', 'во'])
    o = g.word(PREP, ['о', 'об', 'обо'])
    d = g.dict([v, h, pr, o])
    forms = [g.wf(x) for x in (h, k, pl)]
    n = [g.int(x) for x in (1, 2, 5, 21, 22, 25, 1000000)]
    for x in ('Вчера [mob] [укусил|mob] [hero|вн].', '[Hero] [укусил|hero|буд] [mob|вн,мн].', '[mob|рд|загл] %s [hero]',
              '[n] [mob|n|дт]', '[о|mob|пр] [mob|пр]', '[В|hero] [hero|вн]', '[гиена|n] [Гиена|n,мн]'):
        names = ['hero', 'mob'] + (['n'] if 'n,мн' not in x else [])
        t = g.tpl(x, names, tags=tags)
        for a in forms:
            for b in forms:
                for c in (n if 'n' in x else n[:1]):
                    ext = [{'n': T('hero'), 'i': a}, {'n': T('mob'), 'i': b}, {'n': T('n'), 'i': c}]
                    g.ev('tryrender', i=t, ext=ext, d=d, tags=tags)
        g.ev('sert', i=t, tags=tags)
    return g.finish()


def agreement(cases, suite, tags_of):
    """cases: (slave type, master, property vector); masters are numbers or types."""
    g = Gen(0, suite)
    for part in chunks(cases, 250):
        slaves, masters = {}, {}
        for t, m, p in part:
            if t not in slaves:
                slaves[t] = g.word(t, ['%s%d' % ('с', i) for i in range(NSLOTS[t - 1])])
            if m not in masters:
                if m == INT:
                    masters[m] = g.int(5)
                else:
                    w = g.word(m, ['%s%d' % ('м', i) for i in range(NSLOTS[m - 1])])
                    masters[m] = g.wf(w)
            g.ev('transform', w=slaves[t], p=p, i=masters[m], tags=tags_of(t, m))
        g.start()
    return g.finish()


def tags_agree(t, m):
    if t == PREP:
        return ['U12']
    return ['U09'] if t in (NOUN, PRON) else ['U10']


AGREE_KINDS = (GCASE, ANIM, NUMBER, GENDER, INTFORM, NOUNFORM, MODE)


def numerals(seed, scale, types, suite, tag):
    """Numerals in templates: real numbers, words with own number or case, several externals."""
    g = Gen(seed, suite)
    r = g.rng
    pool = [0, 1, 2, 3, 4, 5, 9, 10, 11, 12, 14, 19, 20, 21, 22, 24, 25, 31, 100, 101, 102, 111, 112, 121, 1000,
            10000, 10001, 10002, 999999, 1000000, 1000001, 1000002, 1000000000, 1000000001, 2000000, 10**12, -1, -2, -5, -11,
            -1000000]
    kinds = [GCASE, ANIM, GENDER, NUMBER, MODE, NOUNFORM, TIME, PERSON, GRADE]
    ids = [IDS[k - 1][v] for k in (GCASE, ANIM, GENDER, NUMBER, MODE) for v in range(NVALS[k - 1])]
    for i in range(30 * scale):
        t = types[i % len(types)]
        own = [k for k in (ANIM, GENDER, NUMBER) if r.random() < (0.5 if k != NUMBER else 0.15)]
        w = g.word(t, ['с%d' % j for j in range(NSLOTS[t - 1])], g.props(own, 1.0))
        d = g.dict([w])
        nums = [g.int(r.choice(pool)) for _ in range(6)]
        me = g.wf(w, g.props(kinds, 0.3))
        for _ in range(14):
            x = '[n] ' + '[%s|%s]' % (r.choice(['сам', 'с0', 'с%d' % r.randint(0, NSLOTS[t - 1] - 1)]),
                                      '|'.join(r.sample(['n', r.choice(ids), ','.join(r.sample(ids, 2))],
                                                        r.randint(1, 3)) + r.sample(['n', 'm'], 1)))
            k = g.tpl(x, ['n', 'm', 'сам'])
            g.ev('render', i=k, d=d, tags=[tag],
                 ext=[{'n': T('n'), 'i': r.choice(nums)}, {'n': T('m'), 'i': r.choice(nums)}, {'n': T('сам'), 'i': me}])
        for _ in range(20):
            p = g.props(AGREE_KINDS, 0.6)
            for k in r.sample(range(1, 21), 3):
                p[k - 1] = g.some(k)
            g.ev('transform', w=w, p=p, i=r.choice(nums), tags=[tag])
        g.start()
    return g.finish()


def counting(seed, scale):
    """Numerals that are not made from numbers: words of the part of speech with their own class, forms with properties of
    their own, several numerals at once, words that bring a number, a case or a class themselves."""
    g = Gen(seed, 'counting')
    r = g.rng
    for i in range(16 * scale):
        t = [NOUN, ADJ, PRON, VERB, NOUN, PART, ADJ, VERB][i % 8]
        tags = tags_agree(t, INT)
        own = [k for k in (ANIM, GENDER, NUMBER, GCASE, INTFORM, NOUNFORM, MODE, ADJCAT, WCASE) if r.random() < 0.2]
        w = g.word(t, ['с%d' % j for j in range(NSLOTS[t - 1])], g.props(own, 1.0) if own else [])
        d = g.dict([w])
        ext = []
        for k in range(7):
            x = r.random()
            if x < 0.3:
                n = g.int(r.choice([0, 1, 2, 5, 11, 21, 22, 25, 1000, 1000000, -1, -2, 10**9]))
                j = n if r.random() < 0.5 else g.wf(g.n['words'], g.props(AGREE_KINDS, 0.2), g.props(AGREE_KINDS, 0.2))
            else:
                m = g.word(INT if x < 0.85 else r.choice([NOUN, TEXT, PRON, PREP, VERB]), None or
                           [r.choice(['один', 'две', '5', '', 'миллион', '1', 'сто', '22', 'Двое', '%'])] *
                           1, r.choice([[], g.props([INTFORM], 1.0), g.props([INTFORM, NUMBER, GENDER], 0.6),
                                        g.props(AGREE_KINDS, 0.3)])) if x < 0.85 else g.anyword(r.choice([NOUN, TEXT, PRON]), 'slots')
                j = g.wf(m, r.choice([[], [], g.props([INTFORM], 1.0), g.props(AGREE_KINDS, 0.3)]),
                         r.choice([[], [], g.props(AGREE_KINDS, 0.3)]))
            ext.append({'n': T('ч%d' % k), 'i': j})
        me = g.wf(w, g.props(AGREE_KINDS, 0.2), r.choice([[], g.props(AGREE_KINDS, 0.2)]))
        ext.append({'n': T('сам'), 'i': me})
        names = ['ч%d' % k for k in range(7)] + ['сам']
        ids = [IDS[k - 1][v] for k in AGREE_KINDS for v in range(NVALS[k - 1])]
        ids += [IDS[INTFORM - 1][v] for v in range(5)] + [IDS[GCASE - 1][v] for v in range(6)] * 2
        for _ in range(24):
            deps = r.sample(names[:7], r.choice([1, 1, 2, 2, 3]))
            for _ in range(r.choice([0, 1, 1, 2])):
                deps.insert(r.randint(0, len(deps)), ','.join(r.sample(ids, r.choice([1, 1, 2, 3]))))
            name = r.choice(['сам', 'Сам', 'с%d' % r.randrange(NSLOTS[t - 1]), 'с0'])
            k = g.tpl('[%s]' % '|'.join([name] + deps), names)
            g.ev('render', i=k, d=d, ext=ext, tags=tags)
        for _ in range(14):
            g.ev('transform', w=w, p=g.props(AGREE_KINDS, 0.5), i=r.choice(ext[:7])['i'], tags=tags)
        g.snap()
        g.start()
    return g.finish()


def integers(seed, scale):
    g = Gen(seed, 'integers')
    r = g.rng
    ns = list(range(-130, 2300)) + list(range(9900, 10130)) + list(range(99990, 100025))
    ns += list(range(999995, 1000015)) + list(range(10**9 - 3, 10**9 + 12)) + list(range(-10013, -9990))
    ns += [s * b * 10**k + c for k in range(3, 22) for b in (1, 2, 5) for c in (0, 1, 2, 4, 5, 11, 12, 14, 21) for s in (1, -1)]
    ns += [s * 10**k for k in range(0, 40) for s in (1, -1)] + [2**31, 2**63, 2**64, -2**63, 2**31 - 1]
    ns += [r.randint(0, 10100) for _ in range(1500)] + [r.randint(-10**15, 10**15) for _ in range(300)]
    if scale > 1:
        ns += list(range(2300, 12000)) + [r.randint(-10**30, 10**30) for _ in range(5000)]
    r.shuffle(ns)
    for part in chunks(ns, 300):
        # numbers easily taken for each other: of equal hash, of equal last bits, of equal digits or size
        near = [f(n) for n in r.sample(part, min(len(part), 5)) for f in r.sample(
            [lambda n: -n, lambda n: n + 2**61 - 1, lambda n: n - 2**61 + 1, lambda n: n + 2**32, lambda n: n + 2**64,
             lambda n: n % 1000, lambda n: n * 10, lambda n: n + 10**6, lambda n: int(str(abs(n))[::-1]), lambda n: ~n,
             lambda n: n * 10**9], 3)] + [-1, -2, 2**61 - 3, 2**61 - 2, 2**61, 1 - 2**61, 0]
        r.shuffle(near)
        for n in part + near:
            g.ev('intq', n=number(n))
        a = g.int(part[0])
        b = g.int(part[1])
        c = g.int(part[0])
        g.ev('peekwf', i=a, first=False, tags=['U11'])
        g.ev('wfeq', a=a, b=c)
        g.ev('wfeq', a=a, b=b)
        d = g.dict([a])
        t = g.tpl('[n] [m|рд] [n|загл,мн]', ['n', 'm'])
        g.ev('render', i=t, d=d, ext=[{'n': T('n'), 'i': a}, {'n': T('m'), 'i': b}], tags=['U11'])
        g.ev('intq', n=number(part[0]), tags=['U19'])
        g.ev('intq', n=number(part[1]), tags=['U19'])
        g.snap(tags=['U11'])
        g.start()
    return g.finish()


def prepositions(seed, scale, cases=()):
    """cases: (preposition, first form, another form, show the other form, capital letter)."""
    g = Gen(seed, 'prepositions')
    r = g.rng
    letters = 'авсбкеёоъьмнюяВСАЕыэtx1- '
    cases = list(cases)
    own = [(y, x, x, False, False) for x in ('всех', 'мне', 'всём', 'что', 'всей') for y in 'оовв' * 3]
    cases += own
    preps = ['в', 'с', 'о', 'к', 'на', 'из', 'под', 'В', 'С', 'О', 'об', 'у', 'во', '', 'перед', 'x', 'от ', 'съ', 'ч']
    real = ['всех', 'мне', 'всём', 'что', 'всей', 'чём', 'сон', 'сна', 'рот', 'рта', 'лён', 'льна', 'я', 'меня', 'отъезд', 'ель',
            'ёж', 'юг', 'яма', 'власть', 'слово', 'страх', 'внук', 'вода', 'аист', 'эхо', 'ВСЕХ', 'Мне', 'ЧТО', 'всем', 'мной', 'день', 'дня']
    special = ['всех', 'мне', 'всём', 'что', 'всей']
    near = [x + c for x in special for c in 'аёбь-м '] + [c + x for x in special for c in 'аёбьв '] + \
        [x[:-1] for x in special] + [x[1:] for x in special] + [x[::-1] for x in special] + special + \
        ['всем', 'всё', 'мной', 'мнение', 'чтобы', 'чтение', 'всеобщий', 'Всех', 'ЧТО']
    # governed words with marks before, inside and after
    marked = [m + x for m in '"«(-—…\'0 \t\n!а́' for x in ['арена', 'сна', 'власть', 'мне', 'ель', 'А']] + \
        [x[:1] + m + x[1:] for m in '"-\' \u0301\u00ad' for x in ['сна', 'мне', 'что', 'арена', 'вс']] + \
        [x + m for m in '.,!»" ' for x in special]
    for x in marked:
        for pr in r.sample(['о', 'в', 'с', 'к', 'на', 'об'], 2) + ['о', x[-1:]]:
            cases.append((pr, x, r.choice([x, x, 'сон', 'осан']), False, r.random() < 0.3))
    for x in near:
        for pr in ('о', 'О', 'об', 'в', 'по', 'со'):
            if pr == 'о' or r.random() < 0.3:
                cases.append((pr, x, x, False, r.random() < 0.3))
    for _ in range(900 * scale):
        a = r.choice(real) if r.random() < 0.4 else g.text(0, 4, letters)
        b = r.choice(real) if r.random() < 0.4 else g.text(0, 4, letters)
        cases.append((r.choice(preps), a, b, r.random() < 0.5, r.random() < 0.3))
    for part in chunks(cases, 24):
        before = []
        for pr, a, b, other, upper in part:
            pr, a, b = [x if isinstance(x, str) else ''.join(map(chr, x)) for x in (pr, a, b)]
            f, p = [pr, 'алт', 'спц'], []
            if r.random() < (0.5 if b in special else 0.15):
                # a preposition that is another of its forms by itself
                v = r.randint(1, 3)
                f, p = [r.choice(['о', 'в', 'об'] + preps) for _ in range(3)], vec([PREPFORM, v])
                if r.random() < 0.7:
                    f[v - 1] = pr
            w = g.word(PREP, f, p)
            t = r.choice([NOUN, PREP, PREP, VERB, PRON, TEXT, INT] + [NOUN, PREP, PREP, VERB] * 2 + [r.choice([ADJ, PART])])
            f = [a] + [b] * (NSLOTS[t - 1] - 1)
            if r.random() < 0.3:
                f = [a] + [r.choice([a, b, '']) for _ in range(NSLOTS[t - 1] - 1)]
            if t == NOUN:
                f[2] = b if other else a
            m = g.word(t, f)
            facts = [[WCASE, 2]] if upper else []
            if other:
                facts += {NOUN: [[GCASE, 3]], PREP: [[PREPFORM, 2]], VERB: [[VFORM, 2]]}.get(t, [[GCASE, 2]])
            i = g.wf(m, vec(*facts) if r.random() < 0.7 or not facts else [], vec(*facts) if r.random() < 0.3 else [])
            if r.random() < 0.3:
                g.ev('syllables', w=m)
            p = g.props((PREPFORM, GCASE, WCASE), 0.2)
            g.ev('transform', w=w, p=p, i=i, tags=['U12'])
            if r.random() < 0.25:
                d = g.dict([w])
                k = g.tpl('[п|x|%s] [x]' % r.choice(['пр', 'вн', 'загл', 'алт', 'осн']), ['x', 'п'])
                e = g.wf(w)
                ext = [{'n': T('x'), 'i': i}, {'n': T('п'), 'i': e}]
                g.ev('render', i=k, d=d, ext=ext, tags=['U12'])
                # governed by two words: the later one decides where it asks for a form
                y = r.choice(before) if before and r.random() < 0.7 else g.int(r.choice([1, 2, 5, 100]))
                k = g.tpl(r.choice(['[п|x|y]', '[п|y|x]', '[п|y|рд|x]', '[п|x|y|x]']), ['x', 'п', 'y'])
                g.ev('render', i=k, d=d, ext=ext + [{'n': T('y'), 'i': y}], tags=['U12', 'U08'])
            before.append(i)
        g.start()
    return g.finish()


def governors(seed, scale):
    """Prepositions that depend on several words of several parts of speech, in every order."""
    g = Gen(seed, 'governors')
    r = g.rng
    texts = ['всех', 'мне', 'власть', 'слово', 'один', 'сто', 'отъезд', 'ель', 'дом', 'что', '5', '', 'Арена', 'вторник']
    for _ in range(16 * scale):
        p = r.choice([('о', 'об', 'обо'), ('в', 'во', 'вс'), ('с', 'со', 'сс'), ('к', 'ко', 'кк'), ('на', 'нал', 'нас')])
        w = g.word(PREP, list(p), r.choice([[], [], [], vec([PREPFORM, r.randint(1, 3)])]))
        me = g.wf(w, r.choice([[], vec([PREPFORM, r.randint(1, 3)])]))
        ext = [{'n': T('п'), 'i': me}]
        for k in range(6):
            t = r.choice([INT, TEXT, PREP, NOUN, PRON, VERB, INT, ADJ if r.random() < 0.1 else TEXT])
            f = [r.choice(texts)] * NSLOTS[t - 1]
            if r.random() < 0.4:
                f = [r.choice(['сон', 'сна', 'лён', 'льна', f[0]]) for _ in f]
            m = g.word(t, f)
            ext.append({'n': T('м%d' % k), 'i': g.wf(m)})
        d = g.dict([w])
        names = ['м%d' % k for k in range(6)]
        for _ in range(30):
            deps = r.sample(names, r.choice([1, 2, 2, 3]))
            if r.random() < 0.2:
                deps.insert(r.randint(0, len(deps)), r.choice(['осн', 'алт', 'спц', 'рд', 'загл', 'п']))
            name = r.choice(['п', p[0], p[0], p[1]])
            i = g.tpl('[%s]' % '|'.join([name] + deps), names + ['п'])
            g.ev('tryrender', i=i, ext=ext, d=d, tags=['U08', 'U12'])
        g.start()
    # two words that require different forms: of every two parts of speech, in either order
    for half in (0, 1):
        d = g.dict([g.word(PREP, ['о', 'об', 'обо'])])
        ext = []
        for t in range(1, 9):
            for n, x in (('м%d', 'мне'), ('о%d', 'один')):
                ext.append({'n': T(n % t), 'i': g.wf(g.word(t, [x] * NSLOTS[t - 1]))})
        names = [''.join(map(chr, e['n'])) for e in ext]
        for a in range(1, 9):
            for b in range(1, 9):
                pair = ['м%d' % a, 'о%d' % b]
                if (a + b) % 2 == half:
                    pair.reverse()
                i = g.tpl('[о|%s]' % '|'.join(pair), names)
                g.ev('tryrender', i=i, ext=[e for e in ext if ''.join(map(chr, e['n'])) in pair], d=d, tags=['U08', 'U12'])
        g.start()
    return g.finish()


def homonyms(seed, scale):
    """Words that share texts, added in several orders to several dictionaries."""
    g = Gen(seed, 'homonyms')
    r = g.rng
    for i in range(34 * scale):
        n = r.randint(2, 5)
        pool = [g.text(1, 2, 'абАт') for _ in range(r.randint(1, 3))]
        if i % 3 == 0:
            # texts whose order depends on letter case, length and odd characters
            pool = r.sample(['а', 'А', 'а ', 'а\t', 'аа', 'аА', 'а-', 'аб', 'аБ', 'Аб', 'а\u0301', 'ё', 'е', 'я', 'ж', 'Z', 'z', '', ' а',
                             '\uffff', '\U0001f600', '1', '10', '9', 'а,', 'а\0'], r.randint(2, 5))
        ws = []
        for _ in range(n):
            t = r.choice([TEXT, INT, PREP, NOUN, VERB, PRON, PREP, TEXT, NOUN])
            if i % 12 == 11:
                t = r.choice([ADJ, PART, NOUN])
            same = [e for e in g.events if e['op'] == 'word' and e['t'] == t]
            if same and r.random() < 0.5:
                f = [''.join(map(chr, x)) for x in r.choice(same)['f']]
                if r.random() < 0.5:
                    f[r.randrange(len(f))] = r.choice(pool)
            else:
                f = [r.choice(pool) for _ in range(NSLOTS[t - 1])]
            p = g.props(list(SCHEMA[t - 1]) + [ANIM, GENDER, WCASE, NUMBER], 0.2) if r.random() < 0.6 else []
            ws.append(g.word(t, f, p))
        xs = [T(x) for x in sorted(set(pool) | {x[:1].upper() + x[1:] for x in pool}) + ['', 'нет']]
        orders = [list(ws), list(reversed(ws))]
        o = list(ws)
        r.shuffle(o)
        orders.append(o)
        o = list(ws) + [r.choice(ws) for _ in range(2)]
        r.shuffle(o)
        orders.append(o)
        for k, o in enumerate(orders):
            if k % 2:
                d = g.dict([])
                for w in o:
                    g.ev('add', d=d, w=w)
                    if r.random() < 0.3:
                        g.ev('get', d=d, x=r.choice(xs), keep=False)
            else:
                d = g.dict(o)
            g.ev('probe', d=d, xs=xs)
            g.ev('getwords', d=d)
            if r.random() < 0.3:
                g.ev('add', d=d, w=r.choice(ws))
                g.ev('probe', d=d, xs=xs)
        g.start()
    # words that differ only in properties that count alike: the first one registered stays
    for t, p, q in ((NOUN, [GENDER, 2], [GENDER, 3]), (NOUN, [GENDER, 3], [ANIM, 2]), (TEXT, [NUMBER, 2], [GENDER, 2]),
                    (PREP, [NUMBER, 2], [TIME, 2]), (INT, [INTFORM, 2], [INTFORM, 3])):
        f = [g.text(2, 2) for _ in range(NSLOTS[t - 1])]
        a, b = g.word(t, f, vec(p)), g.word(t, f, vec(q))
        c = g.word(t, f, vec(p, q) if p[0] != q[0] else vec(p, [MODE, 2]))
        for ws in ([a, b], [b, a], [c, a, b], [b, c, a], [a, c, b]):
            d = g.dict(ws)
            g.ev('probe', d=d, xs=[T(x) for x in sorted(set(f))])
            d = g.dict(ws[:1])
            for w in ws[1:]:
                g.ev('add', d=d, w=w)
            g.ev('probe', d=d, xs=[T(x) for x in sorted(set(f))])
        g.start()
    return g.finish()


def membership(seed, scale):
    g = Gen(seed, 'membership')
    r = g.rng
    for i in range(30 * scale):
        ds = [g.dict([]) for _ in range(2)]
        for k in range(r.randint(1, 5)):
            w = g.anyword(small=i % 6 != 5, style=r.choice(['pool', 'stem', 'sparse', 'slots', 'odd']))
            if r.random() < 0.2:
                w = g.word(g.types[-1], g.forms(g.types[-1], 'pool'), vec([WCASE, 2], [GCASE, 2], [NUMBER, 2]))
            d = r.choice(ds)
            g.ev('add', d=d, w=w)
            if r.random() < 0.4:
                # words that differ only in what they are of themselves: each may own some of the texts
                t = g.types[w - 1]
                f = [''.join(map(chr, x)) for x in [e for e in g.events if e['op'] == 'word'][-1]['f']]
                for p in [g.props(list(SCHEMA[t - 1]) + [NUMBER, ANIM], r.choice([0.3, 0.7])) for _ in range(2)] + [[]]:
                    g.ev('add', d=d, w=g.word(t, f, p))
            texts = [''.join(map(chr, x)) for e in g.events if e['op'] == 'word' for x in e['f']]
            xs = r.sample(texts, min(len(texts), 8))
            xs += [x.upper() for x in xs[:2]] + [x[:1].upper() + x[1:] for x in xs[2:4]] + [x.lower() for x in xs[4:6]]
            xs += ['', xs[0] + ' ', xs[0] + 'ъ', xs[0][:-1]] + r.sample(nearmisses(r.choice(xs)), 6)
            for d in ds:
                g.ev('probe', d=d, xs=[T(x) for x in xs])
                g.ev('getwords', d=d)
            for x in xs[:6]:
                g.ev('has', d=ds[0], x=T(x))
                g.ev('get', d=ds[0], x=T(x), keep=False)
        g.snap()
        g.start()
    return g.finish()


def decoys(g, ext):
    """More externals, with names that differ from those needed in letter case, spaces or a letter."""
    r = g.rng
    names = [''.join(map(chr, e['n'])) for e in ext]
    out = []
    for _ in range(r.choice([0, 0, 1, 2, 4]) if g.n['wfs'] else 0):
        y = r.choice(names + g.texts[:6] + ['слово']) or 'а'
        y = r.choice([y.capitalize(), y.upper(), ' ' + y, y + ' ', y[:-1], y + y, y + '|рд', '[%s]' % y, y[::-1], y + '%', '%s', '',
                      y.title(), y.swapcase(), '\xa0' + y, y[1:]])
        if y not in names:
            names.append(y)
            out.append({'n': T(y), 'i': r.randint(1, g.n['wfs'])})
    out = ext + out
    if r.random() < 0.5:
        r.shuffle(out)
    return out


def growing(seed, scale):
    """Dictionaries that grow between the same questions, by words that bring new texts and by words that do not."""
    g = Gen(seed, 'growing')
    r = g.rng
    for i in range(22 * scale):
        texts = [g.text(1, 3) for _ in range(5)]
        ds = [g.dict([]) for _ in range(2)]
        names = ['герой', 'n', texts[0]]
        mine = g.word(PREP, [r.choice(texts) for _ in range(3)])
        fs = [g.wf(mine, g.props([PREPFORM], 0.5)), g.int(r.choice([1, 2, 5, 21])), g.wf(mine, [], g.props([PREPFORM], 0.7))]
        ext = [{'n': T(n), 'i': f} for n, f in zip(names, fs)]
        ts = []
        for _ in range(5):
            x = ''.join(g.variable(r.choice(texts + texts + names[:2]), names, depth=2) + g.literal(0.1)
                        for _ in range(r.choice([1, 1, 2, 3])))
            ts.append(g.tpl(x, names))
        ws = []
        for step in range(r.randint(4, 6)):
            if ws and r.random() < 0.25:
                w = r.choice(ws)
            else:
                t = r.choice([NOUN, PREP, TEXT, VERB, PRON, INT, PREP, TEXT])
                own = g.own(t)
                f = [r.choice(texts[:r.randint(1, 5)]) for _ in range(NSLOTS[t - 1])]
                if ws and r.random() < 0.3:
                    # the same word but for its own properties
                    e = r.choice([e for e in g.events if e['op'] == 'word'][1:])
                    t, f = e['t'], [''.join(map(chr, x)) for x in e['f']]
                    own = g.props(list(SCHEMA[t - 1]) + [NUMBER, ANIM], 0.5)
                w = g.word(t, f, own)
                ws.append(w)
            for d in r.sample(ds, r.choice([1, 1, 2])):
                g.ev('add', d=d, w=w)
            for d in r.sample(ds, 2):
                g.ev('probe', d=d, xs=[T(x) for x in texts])
                g.ev('getwords', d=d)
                for t in r.sample(ts, 3):
                    for given in (ext, ext[:r.randint(0, 2)]):
                        g.ev('undict', i=t, ext=given, d=d)
                        g.ev('tryrender', i=t, ext=given, d=d)
        g.snap()
        g.start()
    return g.finish()


# texts that a message must not take for a format
FORMATS = ['%(x)s', '%(text)s', '%(key)s', '%(dependency)s', '%(verbose_id)s', '%(wrong_number)s', '%(text', '50%', '%c', '%*d',
           '%%(a)s', '{text}', '{0}', '{', '}', '{}', '{text.__class__}', '$text', '%r', "'", '"', '\\', '\\x']


def nearmisses(y):
    """Texts that a careless comparison takes for y."""
    return [y + '%', '%' + y, y + '%%', y + '-', '-' + y, y + '.', y + '\n', '\n' + y, y + '\u0301', y + '\u200b', '\ufeff' + y, y + '1',
            y.replace('ё', 'е'), y.replace('е', 'ё'), unicodedata.normalize('NFD', y), unicodedata.normalize('NFC', y),
            '"%s"' % y, y + y, y[::-1], y[1:] + y[:1], y[:1] + ' ' + y[1:], y.replace(' ', ''), y.replace(' ', '  '),
            y.swapcase(), y + '\t', '\xa0' + y, y + 'а', y.replace('а', 'a').replace('о', 'o'), y.strip('0123456789')]


def missing(seed, scale):
    g = Gen(seed, 'missing')
    r = g.rng
    for i in range(60 * scale):
        d, names, ext, ids = scene(g, words=r.randint(0, 3) or 1, exts=r.randint(0, 3),
                                   types=[NOUN, TEXT, PREP, INT], style=r.choice(['slots', 'pool', 'stem', 'sparse']))
        if i % 3 == 0:
            # proper names: known only with a capital letter
            g.ev('add', d=d, w=g.word(TEXT, [r.choice(['Москва', 'МОСКВА', 'мосКва', 'Ёж', 'а Б'])]))
            g.ev('add', d=d, w=g.word(PREP, ['Нева', 'невЫ', 'ёж'], r.choice([[], vec([WCASE, 2]), vec([WCASE, 1])])))
        nearly = ['москва', 'Москва', 'нева', 'невы', 'ёж', 'еж', 'а б']
        for y in r.sample(ids, min(3, len(ids))):
            nearly += [y + 'ъ', y[:-1] or 'ъ', y + ' ' + y]
            nearly += [z for z in nearmisses(y) if z.strip() and not set(z) & set('[]|')]
        for _ in range(10):
            x = ''
            for _ in range(r.randint(0, 4)):
                y = r.random()
                name = (r.choice(ids) if ids and y < 0.4 else r.choice(names) if names and y < 0.7 else
                        r.choice(['нет', 'Неттакого', 'ещёнет', 'нет', 'НЕТ'] + nearly))
                x += g.variable(name, names, depth=2) + g.literal(0.1)
            t = g.tpl(x, names)
            for given in (ext, [], [e for e in ext if r.random() < 0.5],
                          ext + [{'n': T('нет'), 'i': ext[0]['i']}] if ext else []):
                given = decoys(g, given) if ext else given
                g.ev('undict', i=t, ext=given, d=d, tags=['U15'])
                g.ev('tryrender', i=t, ext=given, d=d, tags=['U15'])
        g.start()
    return g.finish()


def lexicons(seed, scale):
    g = Gen(seed, 'lexicons')
    r = g.rng
    for i in range(40 * scale):
        ls = [g.lex() for _ in range(2)]
        ts = [g.tpl(x) for x in ('раз', 'два', 'раз', '[три]', '')]
        keys = r.sample(['ключ', 'другой', '', '%s', 'КЛЮЧ'], 3)
        if i % 3 == 1:
            keys = r.sample([['0', 'int 0', ''], ['1', 'int 1', 'int -1'], ['record', 'other record', 'CASE.GENITIVE'],
                             ["('а', 'б')", 'pair', 'empty'], ['none', 'None', 'float'], ['none', '', 'empty'], ['рд', 'record', 'int 1']], 1)[0]
            r.shuffle(keys)
        pool = list(range(1, r.randint(2, 6)))
        n = r.choice([0, 1, 2, 3, 5, 8, 12])
        if i % 8 == 7:
            ts += [g.tpl('т%d' % j) for j in range(r.randint(4, 40))]
            n = len(ts) * 2
            pool = pool[:2]
        if i % 8 == 2:
            # several templates that agree with a request equally well, each of them perfect
            k = keys[-1]
            same = sorted(r.sample(range(1, 9), r.choice([1, 2, 3, 4, 5])))
            for j in range(r.randint(2, 5)):
                t = g.tpl('с%d' % j)
                for l in ls:
                    g.ev('ladd', l=l, key=T(k), t=t, dflt=False, r=same)
                    if r.random() < 0.5:
                        g.ev('ladd', l=l, key=T(k), t=ts[0], dflt=False, r=r.sample(same, r.randint(0, len(same))))
            for l in ls:
                for rs in (same, same[:-1], same + [9], same[:1], same[1:]):
                    g.ev('lget', l=l, key=T(k), r=rs, dflt=False)
                    for op in ('lrand', 'lnear'):
                        g.ev(op, l=l, key=T(k), r=rs, dflt=False)
        if i % 16 == 5:
            # many different templates under one key, nearly all of them eligible
            k = keys[0]
            for j in range(r.choice([15, 17, 19, 20, 21, 31, 32, 33, 50, 64, 100])):
                t = g.tpl('м%d' % j)
                for l in ls:
                    g.ev('ladd', l=l, key=T(k), t=t, dflt=False, r=r.choice([[], [1], [1], [1, 2]]))
            for rs in ([], [1], [1, 2]):
                for op in ('lrand', 'lnear'):
                    g.ev(op, l=ls[0], key=T(k), r=rs, dflt=False)
        for j in range(n):
            dflt = r.random() < 0.15
            k = r.choice(keys[:2])
            g.ev('ladd', l=r.choice(ls), key=T(k), t=r.choice(ts), dflt=dflt,
                 r=[] if dflt else [x for x in pool if r.random() < 0.4])
            if r.random() < 0.3:
                g.ev('lget', l=ls[0], key=T(k), r=[x for x in pool if r.random() < 0.6], dflt=False)
        for l in ls:
            for k in keys:
                g.ev('lhas', l=l, key=T(k), r=[], dflt=False)
                for _ in range(3):
                    rs = [x for x in pool + [9] if r.random() < r.choice([0.2, 0.6, 0.9])]
                    g.ev('lget', l=l, key=T(k), r=rs, dflt=False)
                    dflt = r.random() < 0.15
                    for op in ('lrand', 'lnear'):
                        g.ev(op, l=l, key=T(k), r=[] if dflt else rs, dflt=dflt)
        for k in keys:
            g.ev('lhas', l=ls[0], key=T(k), r=[], dflt=False)
        g.snap()
        g.start()
    return g.finish()


def autofill(seed, scale, cases=()):
    """cases: (type, list of given slots)."""
    g = Gen(seed, 'autofill')
    r = g.rng
    cases = list(cases)
    for i in range(60 * scale):
        t = r.choice([NOUN, VERB, PRON, PREP, ADJ, PART, NOUN, VERB])
        n = NSLOTS[t - 1]
        k = r.choice([0, 1, 2, 3, 3, 4, 5, 8, n // 2, n - 1, n])
        cases.append((t, sorted(r.sample(range(n), min(k, n)))))
    tag = ['U18']
    count = 0
    for t, given in cases:
        n = NSLOTS[t - 1]
        stem = g.text(1, 2)
        f = ['%s%d' % (stem + r.choice(['', 'а', 'оы', 'е']), i) if i in given else '' for i in range(n)]
        if count % 5 == 0:
            # given forms that look like nothing, or read the same
            for i in given:
                if r.random() < 0.4:
                    f[i] = r.choice([' ', '\n', '\xa0', '0', '-', '?', stem, stem, '\u200b', 'None'])
        p = g.own(t)
        if given and count % 4 == 1:
            # not given at all, instead of empty
            f = [[-1] if x == '' and r.random() < 0.6 else x for x in f]
        w = g.word(t, f, p)
        odd = [-1] in f
        if r.random() < 0.5 and not (odd and f[0] == [-1]):
            g.ev('syllables', w=w)
        if r.random() < 0.5 and not (odd and f[0] == [-1]):
            g.ev('fluent', w=w)
        if r.random() < 0.3 and not odd:
            g.ev('normal', w=w)
        g.ev('autofill', w=w)
        g.ev('attrs', w=w, tags=tag)
        if r.random() < 0.4:
            g.ev('autofill', w=w)
        if r.random() < 0.5:
            g.ev('normal', w=w, tags=tag)
            g.ev('form', w=w, p=g.request(t), tags=tag)
            i = g.wf(w, g.request(t))
            g.ev('peekwf', i=i, first=True, tags=tag)
        count += 1
        if count % 6 == 0:
            g.snap(tags=tag)
            g.start()
    return g.finish()


def repeat(g, start, tags):
    """Asks again everything that was asked since `start` and changes nothing."""
    again = [e for e in g.events[start:] if e['op'] in QUERIES and not e.get('keep')]
    for e in again:
        g.events.append(dict(e))


QUERIES = {'form', 'normal', 'allforms', 'attrs', 'syllables', 'fluent', 'peekwf', 'intq', 'transform', 'props', 'peq',
           'rtp', 'sert', 'has', 'get', 'probe', 'getwords', 'undict', 'render', 'weq', 'wfeq', 'teq', 'lhas', 'lget',
           'lrand', 'lnear', 'layout', 'relations', 'loadp'}


def sharing(g, types, tags=None):
    """Words of several parts of speech that were given one and the same property set."""
    r = g.rng
    p = g.props([k for t in types for k in SCHEMA[t - 1]], 0.5)
    p[r.choice([ASPECT, VOICE, MODE]) - 1] = 1
    ws = [g.word(t, g.forms(t, 'slots'), p) for t in types]
    fs = [g.wf(w) for w in ws]
    fs += [g.wf(ws[-1], p, p), g.wf(ws[0], p)]
    for i in fs:
        g.ev('peekwf', i=i, first=False, tags=tags)
    for w in reversed(ws):
        g.ev('normal', w=w, tags=tags)
        g.ev('form', w=w, p=p, tags=tags)
    return ws, fs


def effects(seed, scale):
    """Everything is asked, then asked again in another order, then the whole state is compared."""
    g = Gen(seed, 'effects')
    r = g.rng
    tag = ['U19']
    for i in range(26 * scale):
        ws = [g.anyword(small=True) for _ in range(r.randint(2, 4))]
        if i % 6 == 5:
            ws.append(g.anyword(r.choice([ADJ, PART])))
        mates = r.sample([NOUN, VERB, PRON, PREP, ADJ, PART] if i % 3 == 2 else [NOUN, VERB, PRON, PREP], 2)
        if i % 9 == 4:
            mates = r.choice([[ADJ, PART], [PART, ADJ]])
        ws += sharing(g, mates)[0]
        d = g.dict(ws[:-1])
        d2 = g.dict([])
        names = ['герой', 'моб', 'n']
        fs = [g.wf(r.choice(ws), g.props(chance=0.2), g.props(chance=0.2) if r.random() < 0.5 else []) for _ in range(2)]
        fs.append(g.int(r.choice([1, 2, 5, 21])))
        fs.append(g.int(r.choice([1, 2, 5, 21])))
        ids = [x for x in g.texts if x and x == x.lower() and x.strip() == x and not set(x) & set('[]|')] or ['нет']
        ts = [g.tpl(g.literal() + g.variable(r.choice(ids + names), names) + g.variable(r.choice(ids + names), names, depth=3),
                    names) for _ in range(4)]
        l = g.lex()
        for _ in range(3):
            g.ev('ladd', l=l, key=T('к'), t=r.choice(ts), r=[x for x in (1, 2, 3) if r.random() < 0.5], dflt=False)
        ext = [{'n': T(n), 'i': f} for n, f in zip(names, fs)]
        x = g.texts[0]
        get = r.choice(g.texts)
        g.snap(tags=tag)
        start = len(g.events)
        for _ in range(26):
            op = r.choice(['form', 'normal', 'attrs', 'peekwf', 'intq', 'transform', 'has', 'get', 'probe', 'getwords', 'undict',
                           'render', 'render', 'render', 'sert', 'weq', 'wfeq', 'teq', 'lget', 'lrand', 'lnear', 'lhas', 'props',
                           'form', 'transform', 'syllables', 'fluent', 'badtpl', 'peq', 'rtp'])
            w = r.choice(ws)
            if op in ('form',):
                g.ev(op, w=w, p=g.request(g.types[w - 1]))
            elif op in ('normal', 'attrs', 'syllables', 'fluent'):
                g.ev(op, w=w)
            elif op == 'peekwf':
                g.ev(op, i=r.choice(fs), first=r.random() < 0.5)
            elif op == 'intq':
                g.ev(op, n=number(r.choice([1, 2, 5, 21, 1000000])))
            elif op == 'transform':
                g.ev(op, w=w, p=g.props(chance=0.3), i=r.choice(fs))
            elif op in ('has', 'get'):
                g.ev(op, d=r.choice([d, d2]), x=T(r.choice(g.texts + ['нет'])), **({'keep': False} if op == 'get' else {}))
            elif op == 'probe':
                g.ev(op, d=d, xs=[T(y) for y in r.sample(g.texts, min(4, len(g.texts)))])
            elif op == 'getwords':
                g.ev(op, d=d)
            elif op in ('undict', 'render'):
                g.ev(op, i=r.choice(ts), d=r.choice([d, d, d2]), ext=[e for e in ext if r.random() < 0.9])
            elif op == 'sert':
                g.ev(op, i=r.choice(ts))
            elif op == 'weq':
                g.ev(op, a=w, b=r.choice(ws))
            elif op == 'wfeq':
                g.ev(op, a=r.choice(fs), b=r.choice(fs))
            elif op == 'teq':
                g.ev(op, a=r.choice(ts), b=r.choice(ts))
            elif op in ('lget', 'lrand', 'lnear', 'lhas'):
                g.ev(op, l=l, key=T(r.choice('кл')), r=[y for y in (1, 2, 3) if r.random() < 0.6], dflt=False)
            elif op in ('props', 'peq'):
                g.ev(op, a=g.items(3), b=g.items(3))
            elif op == 'rtp':
                g.ev(op, a=g.items(3))
            elif op == 'badtpl':
                g.ev('parse', i=r.choice(ts), x=T('[a|%s] [b|ххх]' % r.choice(['рд', 'герой'])), exts=[T('герой')], tags=['U20'])
        g.snap(tags=tag)
        repeat(g, start, tag)
        # saving and loading change nothing either; another independent dictionary sees nothing
        g.ev('rtw', w=ws[0])
        g.types.append(g.types[ws[0] - 1])
        g.made('words')
        g.ev('rtt', i=ts[0])
        g.made('tpls')
        g.ev('probe', d=d2, xs=[T(x), T(get)], tags=tag)
        l2 = g.lex()
        g.ev('lhas', l=l2, key=T('к'), r=[], dflt=False, tags=tag)
        g.ev('getwords', d=g.dict([]), tags=tag)
        g.snap(tags=tag)
        g.start()
        copies(g, tag)
    return g.finish()


def among(seed, scale):
    """Questions asked at once: by several threads, and in the midst of each other."""
    g = Gen(seed, 'among')
    r = g.rng
    for i in range(16 * scale):
        if i % 2:
            # the first numbers ever asked for
            g.fresh = True
            qs = [dict(op='intq', n=number(n)) for n in r.sample(
                [0, 1, 5, 21, 999, 5000, 9998, 10000, 10001, -1, 10**6, r.randint(0, 10000)], 6)]
            if i % 4 == 3:
                g.ev('among', how='lines', at=r.choice([3, 10, 40, 300]), qs=qs)
            else:
                g.ev('among', how='threads', qs=qs)
        d, names, ext, ids = scene(g, words=r.randint(2, 4), exts=r.randint(2, 4), small=i % 5 != 4, style=r.choice(['slots', 'stem', 'pool']))
        ds = [d, g.dict(r.sample(range(1, 1 + g.n['words']), 2))]
        ts = [g.tpl(''.join(g.variable(r.choice(ids + names), names, depth=2) + g.literal(0.1)
                            for _ in range(r.choice([1, 2, 4, 7]))), names) for _ in range(4)]
        l = g.lex()
        for t in ts:
            g.ev('ladd', l=l, key=T('к'), t=t, r=[x for x in (1, 2) if r.random() < 0.4], dflt=False)
        for n in range(7):
            qs = []
            for _ in range(r.randint(3, 9)):
                op = r.choice(['render', 'render', 'render', 'undict', 'form', 'transform', 'peekwf', 'attrs', 'intq', 'has', 'get', 'sert', 'lget'])
                if not qs:
                    op = r.choice(['render', 'undict', 'render'])
                w = r.randint(1, g.n['words'])
                if op in ('render', 'undict'):
                    qs.append(dict(i=r.choice(ts), d=r.choice(ds + ds[:1]), ext=[e for e in ext if r.random() < 0.9]))
                elif op in ('form', 'transform', 'attrs'):
                    qs.append(dict(w=w, p=g.request(g.types[w - 1])))
                    if op == 'transform':
                        qs[-1]['i'] = r.randint(1, g.n['wfs']) if g.n['wfs'] else 1
                        if not g.n['wfs']:
                            op = 'form'
                elif op == 'peekwf':
                    if g.n['wfs']:
                        qs.append(dict(i=r.randint(1, g.n['wfs']), first=False))
                    else:
                        op, _ = 'attrs', qs.append(dict(w=w))
                elif op == 'intq':
                    qs.append(dict(n=number(r.choice([1, 2, 5, 11, 22, 1000000, r.randint(0, 3000)]))))
                elif op in ('has', 'get'):
                    qs.append(dict(d=r.choice(ds), x=T(r.choice(g.texts)), keep=False))
                elif op == 'sert':
                    qs.append(dict(i=r.choice(ts)))
                else:
                    qs.append(dict(l=l, key=T('к'), r=[1] if r.random() < 0.5 else [], dflt=False))
                qs[-1]['op'] = op
            if any(q['op'] == 'undict' and q is qs[0] for q in qs) or n % 2 == 0:
                g.ev('among', how='midst', qs=qs)
            g.ev('among', how='lines', at=r.randint(2, 60), qs=qs + qs[:1])
            g.ev('among', how='threads', qs=qs + qs[:1])
        g.snap(tags=['U19'])
        g.start()
    return g.finish()


def variants(r, x):
    """Texts that differ from x in one identifier, one part, the order of parts or the letter case of an id."""
    out = [x + '|', x.replace('|', '||', 1), x.replace('%', '%%'), x.replace(' ', '', 1), x + ' ']
    for v in re.findall(r'\[[^\]]+\]', x):
        parts = v[1:-1].split('|')
        out += [x.replace(v, '[%s]' % '|'.join(q), 1) for q in
                (parts[:1] + parts[1:][::-1], parts + ['мн'], parts + ['рд'], parts + ['дт', 'мн'], parts[:1], parts[:1] + ['тв'],
                 [parts[0].upper()] + parts[1:], [parts[0].lower()] + parts[1:], parts + parts[1:])]
    return out


def reparse(seed, scale):
    g = Gen(seed, 'reparse')
    r = g.rng
    tag = ['U20']
    for i in range(40 * scale):
        d, names, ext, ids = scene(g, words=2, exts=2, types=[NOUN, TEXT, PREP], style='slots')
        ts = [g.tpl('начало [%s]' % names[0], names) for _ in range(2)]
        x = ''
        t = ts[0]
        for _ in range(10):
            z = r.random()
            given = names if r.random() < 0.7 else names[:1]
            if x and z < 0.2:
                # the same text of the same template with other externals
                given = r.choice([[], names[:1], names[1:], names, names + ['рд'], ['рд', 'мн', 'прш']])
            elif x and z < 0.45:
                # the same variables with other dependencies, or the same dependencies in another order
                x = r.choice(variants(r, x)) or x
            else:
                x = g.literal()
                for _ in range(r.randint(0, 3)):
                    x += g.variable(r.choice(ids + names), names, depth=2, bad=0.12) + g.literal()
                y = r.random()
                if y < 0.15:
                    x += '[ |рд]'
                t = r.choice(ts)
            g.ev('parse', i=t, x=T(x), exts=[T(n) for n in given], tags=tag)
            for t in ts:
                g.ev('sert', i=t, tags=tag)
                g.ev('undict', i=t, ext=ext[:1], d=d, tags=tag)
                g.ev('render', i=t, ext=ext, d=d, tags=tag)
            g.ev('teq', a=ts[0], b=ts[1], tags=tag)
            if r.random() < 0.3:
                # a fresh template parsed from the same text is the same template
                f = g.tpl(x, names, tags=tag)
                g.ev('teq', a=f, b=r.choice(ts), tags=tag)
                g.ev('sert', i=f, tags=tag)
        g.snap(tags=tag)
        g.start()
    return g.finish()


OLD_SLOTS = {0: [12, 144, 72, 37, 192, 1, 1, 2], 1: [12, 148, 72, 37, 196, 1, 1, 2], 2: [18, 148, 72, 37, 196, 1, 1, 2],
             3: [18, 148, 72, 27, 196, 1, 1, 2], 4: [18, 148, 72, 27, 196, 1, 1, 3], 5: [18, 148, 72, 27, 196, 1, 1, 3],
             6: [18, 148, 72, 27, 292, 1, 1, 3], 7: [18, 101, 72, 20, 148, 1, 1, 3], 8: [18, 101, 72, 20, 148, 1, 1, 3]}


def migrations(seed, scale):
    g = Gen(seed, 'migrations')
    r = g.rng

    def doc(t, n, p=(), pa=()):
        return {'t': t, 'f': [T('%s%d' % ('абвгдежз'[t - 1], i)) for i in range(n)], 'p': [list(x) for x in p],
                'pa': [T(x) for x in pa]}

    def props():
        p = {}
        for _ in range(r.randint(0, 5)):
            p[r.choice(list(range(21)) + [5, 5, 99])] = r.randint(0, 8)
        return list(p.items())
    for m in range(1, 10):
        for t in TYPES:
            n = OLD_SLOTS[m - 1][t - 1]
            for p in ((), ((1, 0), (3, 2)), ((8, 1), (5, 2), (99, 1))):
                g.ev('migrate', m=m, doc=doc(t, n, p))
            for pool in ([[], T('а'), T('б')], [T('а'), T('Б'), T(' '), T('а б')]):
                d = doc(t, n, props())
                d['f'] = [r.choice(pool) for _ in d['f']]
                g.ev('migrate', m=m, doc=d)
        g.snap(tags=['U21'])
        g.start()
    for t in TYPES:
        for m in (2, 4, 5):
            n = OLD_SLOTS[m - 1][t - 1]
            for p in ((), ((5, 1),), ((5, 2), (7, 0), (15, 1)), ((7, 0), (5, 0), (15, 1)), ((4, 1), (6, 1))):
                g.ev('migrate', m=m, doc=doc(t, n, p))
        n = OLD_SLOTS[1][t - 1]
        for k in (1, 5, 6, 7, 12):
            g.ev('migrate', m=2, doc=doc(t, n, (), ['с%d' % i for i in range(k)]))
            g.ev('migrate', m=2, doc=doc(t, 6 if t == NOUN else n, ((0, 2),), ['с%d' % i for i in range(k)]))
        g.snap(tags=['U21'])
        g.start()
    # a word carried through all later migrations is loadable
    for m in range(9):
        for t in TYPES:
            n = OLD_SLOTS[m][t - 1]
            pa = ['с%d' % i for i in range(6)]
            g.ev('chain', m=m, doc=doc(t, n, ((1, 1), (3, 2), (8, 1), (5, 1))))
            if m < 2:
                g.ev('chain', m=m, doc=doc(t, n, ((1, 1), (5, 2)), pa))
            for p in ((), ((2, 1), (16, 2), (99, 0)), ((0, 5), (19, 1), (1, 0)), props()):
                d = doc(t, n, p, pa if r.random() < 0.4 else ())
                d['f'] = [r.choice([[], T('а'), T('бб'), x]) for x in d['f']]
                g.ev('chain', m=m, doc=d)
        g.snap(tags=['U21'])
        g.start()
    return g.finish()


def large(seed, scale):
    """The same calls at sizes that the other suites do not reach."""
    g = Gen(seed, 'large')
    r = g.rng
    for i in range(5 * scale):
        # many words, some sharing texts
        kinds = [NOUN, TEXT, PREP, VERB, INT, NOUN, TEXT, PRON]
        pool = [g.text(2, 4, 'авеоыст') for _ in range(12)]
        ws = []
        for n in range(26):
            t = r.choice(kinds)
            if r.random() < 0.3:
                ws.append(g.word(t, [r.choice(pool) for _ in range(NSLOTS[t - 1])], g.own(t)))
            else:
                ws.append(g.anyword(t, style=r.choice(['slots', 'stem'])))
        # long texts with many vowels
        long = ['%s%d' % (g.text(30, 90), n) for n in range(6)]
        lw = g.word(NOUN, [long[n % 6] for n in range(18)], g.own(NOUN))
        many = g.word(PREP, ['о' * 40, 'ао' * 25, g.text(200, 300)])
        for w in (lw, many):
            g.ev('attrs', w=w, tags=['U22'])
            e = g.wf(w, g.request(NOUN))
            g.ev('peekwf', i=e, first=False, tags=['U22', 'U02'])
        order = ws + [lw, many]
        r.shuffle(order)
        half = len(order) // 2
        d = g.dict(order[:half])
        ids = sorted({x for x in g.texts + pool + long if x and x == x.lower()})
        for w in order[half:]:
            g.ev('add', d=d, w=w)
        back = g.dict(order[::-1])
        for dd in (d, back):
            g.ev('probe', d=dd, xs=[T(x) for x in r.sample(ids, min(len(ids), 60)) + pool + long], tags=['U14'])
            g.ev('getwords', d=dd, tags=['U14'])
        # many externals
        names = ['э%d' % n for n in range(14)]
        ext = []
        for n in names:
            w = r.choice(ws + [lw])
            x = g.int(r.choice([1, 2, 5, 21, 22, 10 ** 25, 10 ** 40 + 4, -(10 ** 30) - 11])) if r.random() < 0.3 else \
                g.wf(w, g.request(g.types[w - 1]))
            ext.append({'n': T(n), 'i': x})
        ts = []
        for n in range(7):
            k = [11, 25, 60, 3, 2, 12, 1][n]
            depth = [1, 1, 0, 10, 14, 3, 25][n]
            x = g.literal()
            for _ in range(k):
                name = r.choice(names[:10] if r.random() < 0.5 else ids)
                parts = [g.spaced(g.recase(name))]
                for _ in range(r.randint(depth // 2, depth)):
                    parts.append(r.choice(names) if r.random() < 0.4 else g.idlist() if r.random() < 0.7 else
                                 ','.join(r.choice(ALLIDS) for _ in range(r.randint(8, 20))))
                x += '[%s]' % '|'.join(parts) + g.literal(0.2)
            if n == 5:
                x += (g.text(300, 600) + g.literal()) * 2
            if n in (2, 5) and i % 2:
                x += '[%s|ххх]' % names[0]
            t = g.tpl(x, names, tags=['U07', 'U20'])
            g.ev('sert', i=t, tags=['U06', 'U07'])
            for given in (ext, ext[:7]):
                g.ev('undict', i=t, ext=given, d=d, tags=['U15'])
                g.ev('tryrender', i=t, ext=given, d=d, tags=['U06', 'U08', 'U15'])
            if not (n in (2, 5) and i % 2):
                g.ev('rtt', i=t, tags=['U04'])
                u = g.made('tpls')
                g.ev('tryrender', i=u, ext=ext, d=d, tags=['U04'])
                g.ev('teq', a=t, b=u, tags=['U04', 'U23'])
            ts.append(t)
        g.ev('parse', i=ts[1], x=T('[%s]' % names[0]), exts=[T(n) for n in names], tags=['U20'])
        g.ev('tryrender', i=ts[1], ext=ext, d=d, tags=['U20'])
        g.ev('teq', a=ts[0], b=ts[1], tags=['U23'])
        # long chains of properties
        for _ in range(10):
            g.ev('props', a=g.items(18), b=g.items(18), tags=['U03'])
            g.ev('peq', a=g.items(14), b=g.items(14), tags=['U03'])
            g.ev('rtp', a=g.items(18), tags=['U04'])
        g.snap(tags=['U19'])
        g.start()
    return g.finish()


def copies(g, tag):
    """Words made of equal values, by every route: completing one of them leaves the others as they are."""
    r = g.rng
    t = r.choice([NOUN, VERB, PREP, PRON, ADJ, PART, TEXT])
    n = NSLOTS[t - 1]
    stem = g.text(1, 2)
    f = ['%s%d' % (stem, j) if r.random() < 0.4 else '' for j in range(n)]
    f[0] = f[0] or stem
    ws = []
    for route in r.sample(['word', 'word', 'loadw', 'loadw', 'rtw', 'rtw'], 5):
        if route == 'word' or not ws and route == 'rtw':
            ws.append(g.word(t, f))
            continue
        if route == 'rtw':
            g.ev('rtw', w=r.choice(ws))
        else:
            g.ev('loadw', t=TYPENUM[t - 1], f=[T(y) for y in f], p=[], js=r.random() < 0.5)
        g.types.append(t)
        ws.append(g.made('words'))
    g.snap(tags=tag)
    for w in r.sample(ws, 2):
        g.ev('autofill', w=w)
        for v in ws:
            g.ev('attrs', w=v, tags=tag)
    for v in ws:
        g.ev('normal', w=v, tags=tag)
    g.snap(tags=tag)
    g.start()


def phonetics(seed, scale, texts=()):
    g = Gen(seed, 'phonetics')
    r = g.rng
    letters = 'аеёиоуыэюябвгйьъщАЕЁЮЯБВГЙЬЪЩ%1 a-zZі'
    tag = ['U22']
    for i in range(70 * scale):
        t = r.choice([NOUN, PREP, TEXT, VERB, PREP, PRON])
        if i % 20 == 19:
            t = r.choice([ADJ, PART])
        base = g.text(0, 5, letters)
        f = [base] + [r.choice([base, '', base + g.text(1, 2, letters), g.text(0, 4, letters), base[:-1]])
                      for _ in range(NSLOTS[t - 1] - 1)]
        if r.random() < 0.3:
            f = [base] + [base + r.choice(['', 'а', 'ым', 'б'])] * (NSLOTS[t - 1] - 1)
            if len(f) > 1 and r.random() < 0.5:
                f[-1] = g.text(0, 3, letters)
        p = g.own(t)
        w = g.word(t, f, p)
        order = ['syllables', 'fluent', 'attrs', 'normal']
        r.shuffle(order)
        for op in order:
            g.ev(op, w=w)
        for _ in range(3):
            j = g.wf(w, g.request(t) if r.random() < 0.8 else [], vec([WCASE, 2]) if r.random() < 0.3 else [])
            g.ev('peekwf', i=j, first=r.random() < 0.7, tags=tag)
        if i % 3 == 0:
            # another word of the same type, own properties and first form, with a different rest
            for _ in range(2):
                rest = [y if r.random() < 0.5 else r.choice([base, y + 'б', base[:-1] + g.text(1, 2, letters), y[1:], '']) for y in f[1:]]
                v = g.word(t, [base] + rest, p)
                for u in r.sample([v, w], 2):
                    for op in r.sample(order, 4):
                        g.ev(op, w=u)
                    j = g.wf(u, g.request(t) if r.random() < 0.8 else [])
                    g.ev('peekwf', i=j, first=True, tags=tag)
                f = [base] + rest
        if i % 8 == 7:
            g.start()
    for part in chunks(list(texts), 40):
        for x in part:
            w = g.word(PREP, [x, 'а', ''])
            g.ev('attrs', w=w)
            j = g.wf(w)
            g.ev('peekwf', i=j, first=True, tags=tag)
            j = g.wf(w, vec([WCASE, 2]))
            g.ev('peekwf', i=j, first=False, tags=tag)
        g.start()
    # every first form of up to two vowels with every other form of up to three letters, in either place
    short = [''.join(x) for n in range(4) for x in itertools.product('аоб', repeat=n)]
    k = 0
    for base in short:
        if len(base) > 2 or 'б' in base:
            continue
        for other in short:
            k += 1
            rest = [other, r.choice(['', base])]
            g.ev('attrs', w=g.word(PREP, [base] + (rest if k % 2 else rest[::-1])), tags=tag)
            if k % 40 == 0:
                g.start()
    g.start()
    # each letter of the alphabet, in both cases, at the beginning, alone and inside
    for c in [chr(x) for x in range(1040, 1104)] + ['ё', 'Ё', 'a', 'B', '1', ' ', '-']:
        w = g.word(PREP, [c, c + 'б', 'б' + c])
        for fp in (1, 2, 3):
            j = g.wf(w, vec([PREPFORM, fp]))
            g.ev('peekwf', i=j, first=True, tags=tag)
        g.ev('attrs', w=w)
        w = g.word(PREP, ['б' + c + 'о', 'б' + c, c])
        g.ev('attrs', w=w)
    return g.finish()


def equality(seed, scale):
    g = Gen(seed, 'equality')
    r = g.rng
    for i in range(40 * scale):
        t = r.choice([NOUN, PREP, TEXT, INT, VERB])
        f = g.forms(t, 'pool')
        p = g.own(t) or list(NOPROPS)
        ws = [g.word(t, f, p), g.word(t, list(f), list(p))]
        f2 = list(f)
        f2[r.randrange(len(f2))] += 'ъ'
        ws.append(g.word(t, f2, p))
        q = list(p)
        k = r.randint(1, 20)
        q[k - 1] = 0 if q[k - 1] else 1
        ws.append(g.word(t, f, q))
        if t in (TEXT, INT):
            ws.append(g.word(TEXT + INT - t, f, p))
        else:
            # the same forms in other slots
            f3 = list(f)
            a, b = r.sample(range(len(f)), 2)
            f3[a], f3[b] = f3[b], f3[a]
            ws.append(g.word(t, f3, p))
            ws.append(g.word(t, f3[::-1], p))
        ws.append(g.word(t, f, [] if p == NOPROPS else NOPROPS))
        if r.random() < 0.5:
            g.ev(r.choice(['syllables', 'fluent', 'attrs']), w=ws[r.choice([0, 1])])
        for a in range(len(ws)):
            for b in range(len(ws)):
                if a <= b or r.random() < 0.3:
                    g.ev('weq', a=ws[a], b=ws[b])
        reqs = [[], g.request(t), list(NOPROPS)]
        fs = []
        for w in ws[:3]:
            for q in reqs:
                fs.append(g.wf(w, q, r.choice([[], [], g.request(t)])))
        if r.random() < 0.7:
            g.ev('peekwf', i=r.choice(fs), first=True)
        for _ in range(16):
            g.ev('wfeq', a=r.choice(fs), b=r.choice(fs))
        g.ev('wfeq', a=fs[0], b=fs[3])
        g.ev('wfeq', a=fs[1], b=fs[4])
        texts = ['[слово]', '[слово|рд]', '[слово|мн]', '[Слово]', '[слово|герой]', '[слово] ', '[слово|мн,рд]', '[слово|рд,мн]', '%', '',
                 '[слово|мн|рд]', '[слово|рд|мн]', '[слово|рд|рд]', '[слово|герой|рд]', '[слово|рд|герой]', '[слово|герой|герой]',
                 '[слово|дт|рд]', '[слово|рд|дт]', '[слово][слово]', '[СЛОВО]', '[слово|загл]', '[ слово | рд ]', '[слово|РД]']
        ts = [g.tpl(x, ['герой']) for x in r.sample(texts, 5)]
        # templates that were never parsed
        ts += [g.tpl(x, []) for x in r.choice([['[ ]', '[|рд]'], ['', '[]'], ['[слово|нет]'], []])]
        ts += [g.tpl(x, []) for x in r.sample([x for x in texts if 'герой' not in x], 3)]
        g.ev('rtt', i=ts[0])
        ts.append(g.made('tpls'))
        for _ in range(14):
            g.ev('teq', a=r.choice(ts), b=r.choice(ts))
        g.ev('teq', a=ts[0], b=ts[-1])
        for kind, objects in (('w', ws), ('f', fs), ('t', ts), ('p', [1])):
            g.ev('foreign', kind=kind, i=r.choice(objects))
        for w in ws[:2]:
            g.ev('attrs', w=w)
        for a in range(3):
            g.ev('weq', a=ws[0], b=ws[a])
        g.start()
    return g.finish()


def failures(seed, scale):
    """Calls that must fail, and calls on words with empty forms that must not."""
    g = Gen(seed, 'failures')
    r = g.rng
    tag = ['U24']
    for i in range(44 * scale):
        d, names, ext, ids = scene(g, words=3, exts=3, types=[NOUN, PREP, TEXT, VERB, PRON], style=r.choice(['sparse', 'slots', 'pool']))
        # nothing but empty forms
        t = r.choice([NOUN, PREP, TEXT, VERB])
        w = g.word(t, [''] * NSLOTS[t - 1], g.own(t), tags=tag)
        g.ev('attrs', w=w, tags=tag)
        g.ev('autofill', w=w, tags=tag)
        g.ev('add', d=d, w=w, tags=tag)
        e = g.wf(w, g.request(t), tags=tag)
        g.ev('peekwf', i=e, first=True, tags=tag)
        ext.append({'n': T('пусто'), 'i': e})
        names = names + ['пусто']
        pr = g.word(PREP, r.choice([['', '', ''], ['о', '', ''], ['в', '', 'во']]))
        g.ev('transform', w=pr, p=g.props(chance=0.2), i=e, tags=tag + ['U12'])
        g.ev('add', d=d, w=pr, tags=tag)
        for _ in range(12):
            x = ''
            for _ in range(r.randint(1, 4)):
                y = r.random()
                name = (r.choice(names) if y < 0.4 else r.choice(ids) if ids and y < 0.6 else
                        r.choice(['нет', 'Нет%', '', ' ', '\t\n', '%s', '|', 'ещё', 'о', 'в', r.choice(FORMATS)]))
                x += g.literal(0.3) + g.variable(name, names, bad=0.12, depth=3)
            t = g.tpl(x, r.choice([names, names[:2]]), tags=tag)
            for given in (ext, ext[1:], ext[:1]):
                g.ev('tryrender', i=t, ext=given, d=d, tags=tag)
        for x in [r.choice(['нет', '', '%', '%s', '\n', 'Нет', '[x]'] + ids[:3]) for _ in range(5)] + r.sample(FORMATS, 4):
            g.ev('get', d=d, x=T(x), keep=False, tags=tag)
        # a name of a dependency that is not given later
        x = r.choice(FORMATS)
        if not set(x) & set('[]|'):
            t = g.tpl('[%s|%s]' % (r.choice(names), x), [x] + names, tags=tag)
            g.ev('tryrender', i=t, ext=ext, d=d, tags=tag)
        for _ in range(3):
            t = r.choice(list(TYPES))
            n = r.choice([0, 1, 2, 3, 5, 17, 19, 47, 49, 100])
            if n != NSLOTS[t - 1]:
                g.word(t, [r.choice(['%', '%s', 'ф', '', r.choice(FORMATS)]) for _ in range(n)], tags=tag)
        l = g.lex()
        tt = g.tpl('да')
        g.ev('ladd', l=l, key=T('%s'), t=tt, r=[1, 2], dflt=False)
        for key in ['%s', '%', 'нет', ''] + r.sample(FORMATS, 2):
            for op in ('lrand', 'lnear'):
                g.ev(op, l=l, key=T(key), r=r.choice([[], [1], [2, 3], [1, 2]]), dflt=False, tags=tag)
        g.ev('lrand', l=l, key=T('%s'), r=[], dflt=True, tags=tag)
        g.snap()
        g.start()
    return g.finish()


def journeys(seed, scale):
    """Long mixed sessions over everything."""
    g = Gen(seed, 'journeys')
    r = g.rng
    for i in range(14 * scale):
        names = ['герой', 'моб', 'n']
        g.dict([])
        g.tpl('начало')
        g.lex()
        g.anyword(small=True)
        g.wf(1)
        busy = set()
        for _ in range(70):
            w = r.randint(1, g.n['words'])
            t = g.types[w - 1]
            f = r.randint(1, g.n['wfs'])
            d = r.randint(1, g.n['dicts'])
            k = r.randint(1, g.n['tpls'])
            op = r.random()
            ids = [x for x in g.texts[-60:] if x and x == x.lower() and x.strip() == x and not set(x) & set('[]|')] or ['нет']
            ext = [{'n': T(n), 'i': r.randint(1, g.n['wfs'])} for n in names if r.random() < 0.85]
            if op < 0.10:
                g.anyword(small=r.random() < 0.93)
            elif op < 0.18:
                g.wf(w, g.request(t) if r.random() < 0.7 else [], g.request(t) if r.random() < 0.3 else [])
            elif op < 0.21:
                g.int(r.choice([1, 2, 5, 11, 21, 22, 1000000]))
            elif op < 0.27:
                g.ev('add', d=d, w=w)
            elif op < 0.29:
                g.dict(r.sample(range(1, g.n['words'] + 1), min(2, g.n['words'])))
            elif op < 0.37:
                x = g.literal() + ''.join(g.variable(r.choice(ids + names), names, bad=0.05) + g.literal() for _ in range(r.randint(0, 3)))
                if r.random() < 0.5:
                    g.tpl(x, names)
                    g.ev('sert', i=g.n['tpls'])
                else:
                    g.ev('parse', i=k, x=T(x), exts=[T(n) for n in names], tags=['U20'])
                    g.ev('sert', i=k, tags=['U20'])
            elif op < 0.40:
                g.ev('rtw', w=w)
                g.types.append(t)
                g.made('words')
            elif op < 0.43:
                g.ev('rtt', i=k)
                g.made('tpls')
            elif op < 0.48:
                g.ev('ladd', l=1, key=T(r.choice('абв')), t=k, r=[x for x in (1, 2, 3) if r.random() < 0.4], dflt=False)
            elif op < 0.55:
                g.ev(r.choice(['lget', 'lrand', 'lnear']), l=1, key=T(r.choice('абв')), r=[x for x in (1, 2, 3) if r.random() < 0.7], dflt=False)
            elif op < 0.72:
                g.ev('undict', i=k, ext=ext, d=d)
                g.ev('tryrender', i=k, ext=ext, d=d)
            elif op < 0.78:
                g.ev('form', w=w, p=g.request(t))
                g.ev('attrs', w=w)
            elif op < 0.84:
                g.ev('get', d=d, x=T(r.choice(g.texts)), keep=False)
                g.ev('getwords', d=d)
            elif op < 0.90:
                g.ev('peekwf', i=f, first=r.random() < 0.5)
                g.ev('wfeq', a=f, b=r.randint(1, g.n['wfs']))
            elif op < 0.95:
                g.ev('transform', w=w, p=g.request(t, 0.3), i=f)
            else:
                g.ev('weq', a=w, b=r.randint(1, g.n['words']))
                g.ev('teq', a=k, b=r.randint(1, g.n['tpls']))
        g.snap()
        g.start()
    return g.finish()


def stale(seed, scale):
    """One and the same set of questions, asked again after each change of the state."""
    g = Gen(seed, 'stale')
    r = g.rng
    for i in range(11 * scale):
        texts = [g.text(1, 3) for _ in range(4)] + [g.text(1, 2, 'авеоыСт')]
        some = lambda t: [r.choice(texts) if r.random() < 0.6 else '' for _ in range(NSLOTS[t - 1])]
        ta, tb = [r.choice([NOUN, PREP, VERB, PRON, PREP]) for _ in range(2)]
        f = some(ta)
        mine = [g.word(ta, f, g.own(ta)), g.word(ta, list(f)), g.word(tb, some(tb), g.own(tb))]
        ws = [g.anyword(r.choice([NOUN, PREP, VERB, TEXT]), 'pool'), g.word(PREP, [r.choice(texts) for _ in range(3)]), g.word(NOUN, [r.choice(texts) for _ in range(18)])]
        ws.append(g.word(PREP, [r.choice(texts) for _ in range(3)], g.own(PREP)))
        ds = [g.dict(ws[:r.choice([1, 2, 3, 4])]), g.dict(ws[3:] if r.random() < 0.3 else [])]
        names = ['герой', 'n', texts[0]]
        fs = [g.wf(ws[1], g.props([PREPFORM], 0.5)), g.int(r.choice([1, 2, 5, 21])), g.wf(ws[2], g.request(NOUN), g.request(NOUN))]
        ext = [{'n': T(n), 'i': j} for n, j in zip(names, fs)]
        ids = [x for x in texts if x == x.lower()] + names[:2]
        source = [''.join(g.variable(r.choice(ids), names, depth=2) + g.literal(0.1) for _ in range(r.choice([1, 1, 2]))) for _ in range(3)]
        ts = [g.tpl(x, names) for x in source]
        l = g.lex()
        g.ev('ladd', l=l, key=T('к'), t=ts[0], r=[1], dflt=False)

        asked = []
        ask = lambda op, **args: asked.append(dict(op=op, **args))
        for w in mine:
            for op in ('normal', 'attrs', 'syllables', 'fluent', 'rtw', 'allforms'):
                ask(op, w=w)
            ask('form', w=w, p=g.request(g.types[w - 1]))
        ask('weq', a=mine[0], b=mine[1])
        for w in ws[:3]:
            ask('form', w=w, p=g.request(g.types[w - 1]))
            ask('transform', w=w, p=g.props(chance=0.2), i=r.choice(fs))
        for j in fs:
            ask('peekwf', i=j, first=r.random() < 0.5)
        for d in ds:
            ask('probe', d=d, xs=[T(x) for x in texts])
            ask('getwords', d=d)
            ask('has', d=d, x=T(r.choice(texts)))
            ask('get', d=d, x=T(r.choice(texts)), keep=False)
            for t in ts:
                given = ext[:r.choice([0, 1, 2, 3, 3, 3])]
                ask('undict', i=t, ext=given, d=d)
                ask('tryrender', i=t, ext=given, d=d)
        for t in ts:
            ask('sert', i=t)
            ask('rtt', i=t)
        ask('teq', a=ts[0], b=ts[1])
        for key, rs in (('к', [1]), ('к', [1, 2]), ('к', []), ('л', [1])):
            ask('lhas', l=l, key=T(key), r=[], dflt=False)
            for op in ('lget', 'lrand', 'lnear'):
                ask(op, l=l, key=T(key), r=rs, dflt=False)
        ask('intq', n=number(r.choice([1, 2, 5, 21, 1000000, -1, 10001])))
        ask('props', a=g.items(3), b=g.items(3))

        left = list(mine)
        for step in range(r.randint(4, 6)):
            r.shuffle(asked)
            for e in asked:
                g.events.append(dict(e))
                if e['op'] == 'rtw':
                    g.types.append(g.types[e['w'] - 1])
                    g.made('words')
                elif e['op'] == 'rtt':
                    g.made('tpls')
            for _ in range(r.choice([1, 2])):
                x = r.random()
                if x < 0.3 and left:
                    g.ev('autofill', w=left.pop(r.randrange(len(left))))
                elif x < 0.55:
                    g.ev('add', d=r.choice(ds), w=r.choice(ws))
                elif x < 0.85:
                    k = r.randrange(3)
                    y = r.choice(variants(r, source[k]) + [r.choice(source), '[', '[ ]', source[k] + '[%s|ххх]' % texts[0]])
                    g.ev('parse', i=ts[k], x=T(y), exts=[T(n) for n in r.choice([names, names[:1], []])])
                else:
                    g.ev('ladd', l=l, key=T(r.choice('ккл')), t=r.choice(ts), r=r.choice([[], [1], [1, 2], [2]]), dflt=False)
        for e in asked:
            if e['op'] not in ('rtw', 'rtt'):
                g.events.append(dict(e))
        g.snap()
        g.start()
    return g.finish()


BRIEF = {'U02': [0], 'U04': [2, 6], 'U06': [2], 'U08': [3, 5], 'U12': [5], 'U13': [1], 'U14': [1], 'U15': [2, 3],
         'U16': [4], 'U17': [4], 'U22': [0, 5], 'U23': [0, 2, 6]}


def brief(seed, scale, prop=None):
    """Objects that live for a short time only: made, asked a few questions, and let go, again and again.

    New objects come to stand where old ones stood, so that anything remembered about the old ones shows."""
    g = Gen(seed, 'brief')
    r = g.rng
    themes = BRIEF.get(prop, range(7))
    for i in range((14 if prop in BRIEF else 28) * scale):
        theme = themes[i % len(themes)]
        t = r.choice([NOUN, VERB, PRON, PREP, ADJ, NOUN])
        size = r.choice([1, 2, 3] if theme == 2 else [1, 1, 2, 3])
        for step in range(r.randint(7, 12)):
            letters = r.choice(['авеоыс', 'рвс', 'аоы', 'льмн'])
            texts = [g.text(1, 3, letters) for _ in range(4)]
            some = lambda n: [r.choice(texts) for _ in range(n)]
            if theme == 0:  # words and their forms
                w = g.word(t, some(NSLOTS[t - 1]), g.own(t) if r.random() < 0.5 else ())
                fs = [g.wf(w, g.request(t) if r.random() < 0.7 else ()) for _ in range(size)]
                asked = [('attrs', dict(w=w)), ('fluent', dict(w=w)), ('syllables', dict(w=w)), ('normal', dict(w=w)),
                         ('form', dict(w=w, p=g.request(t))), ('weq', dict(a=w, b=w))]
                for j in fs:
                    asked.append(('peekwf', dict(i=j, first=r.random() < 0.5)))
                    asked.append(('wfeq', dict(a=j, b=fs[0])))
            elif theme == 1:  # dictionaries
                ws = [g.word(t, some(NSLOTS[t - 1]), g.own(t)) for _ in range(size)]
                d = g.dict(ws)
                asked = [('probe', dict(d=d, xs=[T(x) for x in texts])), ('getwords', dict(d=d)),
                         ('has', dict(d=d, x=T(texts[0]))), ('get', dict(d=d, x=T(texts[0]), keep=False)),
                         ('has', dict(d=d, x=T(texts[3])))]
            elif theme in (2, 3):  # templates
                d = g.dict([g.word(NOUN, some(NSLOTS[NOUN - 1]), g.own(NOUN))])
                f = g.int(r.choice([1, 2, 5, 21])) if r.random() < 0.5 else g.wf(g.word(TEXT, some(1)))
                names = ['n', texts[0]]
                ext = [{'n': T('n'), 'i': f}]
                plain = r.random() < (0.9 if theme == 2 else 0.2)
                ids = texts + ['n']
                asked = []
                first = g.n['tpls'] + 1
                for _ in range(size):
                    if plain and r.random() < 0.6:
                        g.ev('loadt', doc={'lits': [T(r.choice(texts[:2]))], 'subs': []}, js=r.random() < 0.5)
                        k = g.made('tpls')
                    else:
                        x = r.choice(texts[:2]) if plain else g.literal(0.1) + g.variable(r.choice(ids), names, depth=1) + g.literal(0.1)
                        k = g.tpl(x, names[:1])
                    tags = ['U06'] if plain else ['U08']
                    asked += [('tryrender', dict(i=k, ext=ext, d=d, tags=tags)), ('undict', dict(i=k, ext=ext, d=d)),
                              ('sert', dict(i=k)), ('teq', dict(a=k, b=first)), ('undict', dict(i=k, ext=[], d=d))]
                if prop == 'U23' or step % 4 == 3:
                    asked.sort(key=lambda x: x[0] != 'teq')
            elif theme == 4:  # lexicons
                d = g.dict([])
                k = g.tpl('т', [])
                k2 = g.tpl('у', [])
                l = g.lex()
                for _ in range(r.choice([0, 1, 1, 2])):
                    g.ev('ladd', l=l, key=T(r.choice('кл')), t=r.choice([k, k2]), r=r.choice([[], [1], [1, 2]]), dflt=False)
                asked = []
                for key, rs in (('к', [1]), ('к', []), ('л', [1, 2])):
                    asked.append(('lhas', dict(l=l, key=T(key), r=[], dflt=False)))
                    for op in ('lget', 'lrand', 'lnear'):
                        asked.append((op, dict(l=l, key=T(key), r=rs, dflt=False)))
            elif theme == 5:  # words that govern the form of others
                p = g.word(PREP, [r.choice(['в', 'с', 'о', 'под']), 'во', 'обо'])
                m = g.word(NOUN, some(NSLOTS[NOUN - 1]))
                n = g.word(ADJ if t == ADJ else NOUN, some(NSLOTS[(ADJ if t == ADJ else NOUN) - 1]), g.own(NOUN) if t != ADJ else ())
                j = g.wf(m, g.request(NOUN))
                q = g.int(r.choice([1, 2, 5, 12, 22, 1000000, 20001, 20005]))
                asked = [('transform', dict(w=p, p=g.props(chance=0.1), i=j)), ('transform', dict(w=n, p=g.request(NOUN), i=q)),
                         ('fluent', dict(w=m)), ('peekwf', dict(i=j, first=True)), ('peekwf', dict(i=q, first=True))]
            else:  # properties and saved documents
                w = g.word(t, some(NSLOTS[t - 1]), g.own(t))
                asked = [('props', dict(a=g.items(3), b=g.items(3))), ('rtw', dict(w=w)), ('rtw', dict(w=w)),
                         ('normal', dict(w=w)), ('props', dict(a=g.items(2), b=g.items(2)))]
            if step % 3 == 2:
                r.shuffle(asked)
            for op, args in asked[:r.choice([2, 4, len(asked), len(asked)])]:
                g.ev(op, **args)
                if op == 'rtw':
                    g.types.append(g.types[args['w'] - 1])
                    g.made('words')
            g.ev('forget')
        g.start()
    return g.finish()


# -------------------------------------------------------------------------------------------------
# scenarios taken from the models

def from_forms(emitted, seed, scale):
    """Every complete and partial request, on words without and with properties of their own."""
    g = Gen(seed, 'requests')
    r = g.rng
    for part in emitted:
        t = part['t']
        forms = ['%s%d' % ('абвгдежз'[t - 1], i) for i in range(NSLOTS[t - 1])]
        for rows in chunks(part['ps'], 240):
            w = g.word(t, forms)
            k = r.choice(SCHEMA[t - 1]) if SCHEMA[t - 1] else NUMBER
            owned = g.word(t, forms, vec([k, g.some(k)]))
            for n, p in enumerate(rows):
                g.ev('form', w=w, p=p)
                if n % 3 == 0 or scale > 1:
                    q = list(p)
                    for x in r.sample([x for x in range(1, 21) if x not in SCHEMA[t - 1]], 2):
                        q[x - 1] = g.some(x)
                    g.ev('form', w=owned, p=q)
                if n % 12 == 0 or scale > 1:
                    i = g.wf(r.choice([w, owned]), p, r.choice([[], r.choice(rows)]))
                    g.ev('peekwf', i=i, first=False)
            g.start()
    return g.finish()


def from_numerals(emitted, seed, scale, types, masters=(INT,)):
    g = Gen(seed, 'rules')
    r = g.rng
    cases = []
    seen = set()
    for part in emitted:
        for p in part['ps']:
            for t in types:
                q = list(p)
                if t not in (NOUN, PRON) and scale == 1:
                    # these rules do not look at the noun form: one of its values, at random
                    short = (t,) + tuple(q[:18]) + (q[19],)
                    if short in seen:
                        continue
                    seen.add(short)
                    q[NOUNFORM - 1] = r.randint(0, 2)
                if r.random() < 0.5:
                    for x in r.sample([TIME, PERSON, ASPECT, GRADE, WCASE, VOICE, PREPFORM, ADJFORM, VFORM, PARTFORM, WTYPE], 2):
                        q[x - 1] = g.some(x)
                cases.append((t, INT, q))
    # pairs without a rule
    for t in TYPES:
        for m in TYPES:
            for _ in range(6 * scale):
                if (t in types or t in (INT, TEXT)) and (m != INT or t in (INT, TEXT)) and t != PREP:
                    cases.append((t, m, g.props(chance=0.4)))
    return agreement(cases, 'rules', lambda t, m: ['U09'] if t in (NOUN, PRON) else ['U10'] if t in (ADJ, PART, VERB)
                     else ['U09', 'U10'])


def from_prepose(emitted, seed, scale):
    g = Gen(seed, 'prepose')
    r = g.rng
    upper = vec([WCASE, 2])
    for rows in chunks(emitted, 60):
        preps = [g.word(PREP, [x, 'алт', 'спц']) for x in ('в', 'с', 'о', 'к', 'на')]
        for row in rows:
            m = g.word(PREP, [row['a'], row['b'], row['b']])
            forms = [g.wf(m), g.wf(m, vec([PREPFORM, 2]))]
            if r.random() < 0.4 * scale:
                forms.append(g.wf(m, r.choice([[], vec([PREPFORM, 2])]), r.choice([upper, vec([PREPFORM, 2], [WCASE, 2])])))
            for w in preps:
                for i in forms:
                    if scale > 1 or r.random() < 0.6:
                        g.ev('transform', w=w, p=g.props((PREPFORM, GCASE, WCASE), 0.2), i=i, tags=['U12'])
        g.start()
    return g.finish()


def from_histories(prelude, emitted, suite, seed, limit, tags=()):
    """Complete histories; the questions are asked after every call or only at the end."""
    r = random.Random('%s:%s' % (suite, seed))
    out = []
    if len(emitted) > limit:
        emitted = r.sample(emitted, limit)
    for n, hist in enumerate(emitted):
        events = [dict(e) for e in prelude]
        for k, step in enumerate(hist):
            events.append(dict(step['e']))
            if n % 3 != 0 or k == len(hist) - 1:
                events += [dict(e) for e in step['w']]
        if tags:
            for e in events[len(prelude):]:
                e['for'] = list(tags)
        out.append({'suite': suite, 'events': events})
    return out


def from_turns(emitted, seed, scale):
    """Schedules of the model Turns, for the questions of the model and for others with as much in common."""
    g = Gen(seed, 'turns')
    r = g.rng
    for part in chunks(r.sample(emitted, min(len(emitted), 150 * scale)), 6):
        numbers = [c for c in part if 1 in c['q']]
        first = r.choice(numbers) if numbers and r.random() < 0.6 else None
        if first:
            # the first numbers ever asked for
            g.fresh = True
            a, b = [dict(op='intq', n=number(x)) for x in r.sample([0, 3, 21, 777, 4999, 9999, 10000], 2)]
            g.ev('among', how='turns', turns=first['turns'], unit=r.choice([1, 2, 4, 30, 900, 8000, 30000]),
                 qs=[b if q == 2 else a for q in first['q']])
        d, names, ext, ids = scene(g, words=3, exts=3, small=True, style=r.choice(['slots', 'stem', 'pool']))
        ts = [g.tpl(''.join(g.variable(r.choice(ids + names), names, depth=2) + g.literal(0.1)
                            for _ in range(r.choice([1, 2, 4]))), names) for _ in range(2)]
        for c, unit in [(c, u) for c in part for u in r.sample([1, 2, 3, 4, 5, 8, 13, 30], 3)]:
            w = g.anyword(small=True, style=r.choice(['pool', 'stem', 'odd', 'slots']))
            case = g.request(g.types[w - 1])
            case[WCASE - 1] = r.choice([0, 2, 2])
            f = g.wf(w, case, g.request(g.types[w - 1]) if r.random() < 0.3 else [])
            some = [e for e in ext if r.random() < 0.8]
            kind = r.choice(['model', 'model', 'model', 'render', 'render', 'word', 'mixed'])
            numberq = [dict(op='intq', n=number(r.choice([1, 5, 21, 10000, 10001, 10**6, -1]))) for _ in range(2)]
            wordq = [dict(op='attrs', w=w), dict(op='peekwf', i=f, first=False)]
            renders = [dict(op='render', i=ts[0], d=d, ext=ext), dict(op='render', i=ts[0], d=d, ext=some),
                       dict(op='undict', i=ts[0], d=d, ext=some), dict(op='render', i=ts[1], d=d, ext=ext)]
            forms = [dict(op='form', w=w, p=g.request(g.types[w - 1])) for _ in range(2)] + \
                [dict(op='transform', w=w, p=g.request(g.types[w - 1]), i=f)]
            cast = {'model': numberq + wordq, 'render': renders, 'word': forms + wordq[:1],
                    'mixed': r.sample(numberq + wordq + renders + forms, 4)}[kind]
            g.ev('among', how='turns', turns=c['turns'], unit=unit,
                 qs=[cast[q - 1] for q in c['q']])
        g.snap(tags=['U19'])
        g.start()
    return g.finish()


def from_merging(emitted):
    g = Gen(0, 'merging')
    for rows in chunks(emitted, 150):
        for row in rows:
            g.ev('props', a=row['a'], b=row['b'])
            g.ev('peq', a=row['a'], b=row['b'])
            g.ev('peq', a=row['a'] + row['b'], b=row['a'])
        g.snap()
        g.start()
    return g.finish()


def from_saved(emitted, seed, scale):
    """Every small document: loaded as it is, and once more after a round through JSON text."""
    g = Gen(seed, 'stored')
    facts = [x['f'] for x in emitted if x['k'] == 'facts']
    docs = [x['doc'] for x in emitted if x['k'] == 'template']
    long = [x for x in facts if len(x) > 2]
    facts = [x for x in facts if len(x) <= 2] + g.rng.sample(long, min(len(long), 200 * scale))
    docs = g.rng.sample(docs, min(len(docs), 240 * scale))
    for n, part in enumerate(chunks(facts, 60)):
        for i, f in enumerate(part):
            g.ev('loadp', f=f, js=(i + n) % 2 == 0)
            g.ev('loadp', f=f[::-1], js=(i + n) % 2 == 1)
        for t in ((n % 8) + 1, 7):
            for f in part[::12]:
                g.ev('loadw', t=TYPENUM[t - 1], f=[T('ф%d' % i) for i in range(NSLOTS[t - 1])], p=f, js=n % 2 == 0)
                g.types.append(t)
                w = g.made('words')
                g.ev('rtw', w=w)
                g.types.append(t)
                g.ev('weq', a=w, b=g.made('words'))
                g.ev('normal', w=w)
                g.ev('form', w=w, p=g.request(t))
        g.snap()
        g.start()
    for n, part in enumerate(chunks(docs, 20)):
        w = g.anyword(NOUN, style='slots', p=[])
        g.ev('word', t=NOUN, f=[T('г')] + [T('г%d' % i) for i in range(1, 18)], p=[])
        g.types.append(NOUN)
        v = g.made('words')
        d = g.dict([v])
        e = g.wf(w, [])
        for i, doc in enumerate(part):
            g.ev('loadt', doc=doc, js=(i + n) % 2 == 0)
            a = g.made('tpls')
            g.ev('rtt', i=a)
            b = g.made('tpls')
            g.ev('teq', a=a, b=b)
            g.ev('sert', i=a)
            g.ev('sert', i=b)
            for x in (a, b):
                g.ev('tryrender', i=x, ext=[{'n': T('рд'), 'i': e}, {'n': T(''), 'i': e}, {'n': T('г'), 'i': e}], d=d)
                g.ev('undict', i=x, ext=[], d=d)
        g.snap()
        g.start()
    return g.finish()
