# Generates spec/MarkupIds.tla from the identifiers documented in README.rst (retyped here).
IDS = [
 ('GCASE', 'им рд дт вн тв пр'), ('ANIMALITY', 'од но'), ('NUMBER', 'ед мн'), ('GENDER', 'мр ср жр'),
 ('VERB_FORM', 'инф изъяв пов'), ('TIME', 'прш нст буд'), ('PERSON', '1л 2л 3л'), ('ASPECT', 'несов сов'),
 ('ADJ_CATEGORY', 'кач отн прит'), ('GRADE', 'пол сравн прев'),
 ('PRONOUN_CATEGORY', 'личн возвр притяж вопр относ указат опред отриц неопр взаимн'),
 ('WORD_CASE', 'строч загл'), ('WORD_TYPE', 'сущ прил мест гл прич целое текст предл'),
 ('INTEGER_FORM', 'цо цд цсд цост цмм'), ('VOICE', 'прям взв'), ('PREPOSITION_FORM', 'осн алт спц'),
 ('ADJECTIVE_FORM', 'полнприл крприл'), ('PARTICIPLE_FORM', 'полнприч крприч'), ('NOUN_FORM', 'нс счт'),
 ('DEPENDENCY_MODE', 'пзв сзв')]
import os
L = ['----------------------------- MODULE MarkupIds -----------------------------',
     '(* Generated by tools/gen_ids.py: the identifiers by which markup names the *)',
     '(* property values, as documented in README.rst, in code points.            *)',
     'EXTENDS Words', '', 'MarkupId == <<']
rows = []
for k, ids in IDS:
    rows.append('  <<' + ', '.join('<<' + ', '.join(str(ord(c)) for c in i) + '>>' for i in ids.split()) + '>>')
L.append(',\n'.join('%s' % r for r in rows))
L.append('>>')
L.append('=' * 77)
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'MarkupIds.tla'), 'w').write('\n'.join(L) + '\n')
