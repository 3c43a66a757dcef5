# coding: utf-8
"""Which properties a disagreement between the code and the specification breaks."""

# suites whose every event is there for the sake of these properties
HOME = {
    'layout': ['U01'], 'relations': ['U05'], 'requests': ['U02'], 'forms': ['U02'],
    'merging': ['U03'], 'properties': ['U03'], 'defaults': ['U03'], 'saved': ['U04'],
    'literals': ['U06'], 'markup': ['U07'], 'markuptexts': ['U06', 'U07'],
    'precedence': ['U08'], 'rendering': ['U08'], 'rules_nouns': ['U09'], 'numerals_nouns': ['U09'],
    'numerals_others': ['U10'], 'integers': ['U11'],
    'prepose': ['U12'], 'prepositions': ['U12'], 'homonyms': ['U13'], 'membership': ['U14'],
    'missing': ['U15'], 'autofill': ['U18'], 'reparse': ['U20'], 'migrations': ['U21'],
    'phonetics': ['U22'], 'equality': ['U23'], 'twins': ['U23'], 'sources': ['U08'], 'stored': ['U04'],
}

BASE = {
    'layout': 'U01', 'testword': 'U01', 'relations': 'U05', 'word': 'U01 U24', 'form': 'U02', 'normal': 'U02', 'wf': 'U02',
    'allforms': 'U01 U02 U14', 'syllables': 'U22', 'fluent': 'U22', 'autofill': 'U18',
    'int': 'U11', 'intq': 'U11', 'transform': 'U08', 'props': 'U03', 'peq': 'U03', 'rtp': 'U04', 'loadp': 'U04',
    'rtw': 'U04', 'loadw': 'U04', 'rtt': 'U04', 'loadt': 'U04', 'sert': 'U06 U07', 'dict': 'U13 U14', 'add': 'U13 U14',
    'has': 'U14', 'getwords': 'U14', 'tpl': 'U07', 'parse': 'U07', 'undict': 'U15', 'render': 'U08', 'tryrender': 'U08',
    'weq': 'U23', 'wfeq': 'U23', 'teq': 'U23', 'foreign': 'U23', 'lex': 'U16', 'ladd': 'U16', 'lhas': 'U16',
    'lget': 'U16', 'lrand': 'U16', 'lnear': 'U17', 'migrate': 'U21', 'chain': 'U21'}

TABLES = {'layout', 'testword', 'relations', 'migrate', 'chain'}


def entry_blame(want, got):
    """A looked up entry: it must read as asked and belong to an added word; which one is the choice."""
    if want['x'] != got.get('x') or not got.get('w'):
        return {'U14'}
    return {'U13'}


def snap_blame(f):
    """Which parts of the whole state differ, and whether they were as required before."""
    out = set()
    if 'args' in f.fields:
        out |= {'U19', 'U03'}
    before = None
    for ev in reversed(f.earlier()):
        if ev['op'] == 'snap' and ev['res']['k'] == 'ok':
            before = ev['res']['v']
            break
    for name, prop in (('words', 'U19'), ('wfs', 'U02'), ('tpls', 'U20')):
        if name not in f.fields:
            continue
        want, got = f.want['v'][name], f.got['v'][name]
        old = before[name] if before else []
        for i, (a, b) in enumerate(zip(want, got)):
            if a == b:
                continue
            if i < len(old) and old[i] == a:
                out.add('U19')
            elif name == 'words':
                out |= {'U19'} if (a['t'], a['f'], a['p']) != (b['t'], b['f'], b['p']) else {'U22'}
            else:
                out.add(prop)
                if name == 'tpls':
                    out |= {'U07'}
    return out or {'U19'}


def properties(f):
    ev, op = f.event, f.event['op']
    out = set(ev.get('for', [])) | set(HOME.get(f.session['suite'], []))
    want, got = f.want, f.got
    if 'tlc' in f.fields or got['k'] == 'bad':
        if op not in TABLES:
            out.add('U24')
        out |= set(BASE.get(op, '').split())
        if op == 'attrs':
            out |= {'U22', 'U19'}
        elif op == 'peekwf':
            out |= {'U02', 'U22'}
        elif op in ('get', 'probe'):
            out |= {'U14'}
        elif op == 'snap':
            out |= {'U19'}
        return out
    if 'k' in f.fields or 'class' in f.fields or 'arg' in f.fields:
        out.add('U24')
        out |= set(BASE.get(op, '').split())
        if op in ('render', 'tryrender'):
            out.add('U15')
        if op in ('get', 'probe'):
            out.add('U14')
        return out
    if op == 'attrs':
        out |= {'U22'} if set(f.fields) & {'syl', 'flu'} else set()
        out |= {'U19'} if set(f.fields) & {'t', 'f', 'p'} else set()
    elif op == 'peekwf':
        out |= {'U22'} if 'cl' in f.fields else set()
        out |= {'U02'} if set(f.fields) & {'x', 'p', 'fp'} else set()
    elif op == 'snap':
        out |= snap_blame(f)
    elif op == 'props':
        out |= {'U03'}
        out |= {'U19'} if 'after' in f.fields else set()
    elif op == 'peq':
        out |= {'U03'}
        out |= {'U23'} if 'hash' in f.fields or 'ne' in f.fields else set()
    elif op == 'sert':
        out |= {'U06'} if want['v']['fmt'] != got['v']['fmt'] else set()
        out |= {'U07'} if want['v']['subs'] != got['v']['subs'] else set()
    elif op == 'get':
        out |= entry_blame(want['v'], got['v'])
    elif op == 'probe':
        for a, b in zip(want['v'], got['v']):
            if len(a) != len(b):
                out.add('U14')
            elif a != b:
                out |= entry_blame(a[0], b[0])
    elif op == 'among':
        # a question that is wrong even alone concerns others (see check.concerned for lasting effects)
        out |= {'U19'} if 'same' in f.fields else set()
    elif op == 'transform':
        out |= set(ev.get('for', ['U08']))
    else:
        out |= set(BASE.get(op, '').split())
    return out
