# Writes /verif/properties.jsonl (kept as a script so that the anchors stay readable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=x, meaning='abstract state of the object', where='utg/%s.py' % {'Dictionary':'dictionary','Lexicon':'lexicon','Template':'templates'}[x.split('.')[0]]) for x in state], observe_at=list(observe), hook_needed=hook)))

p('U01', 'The slots of a word are fixed by the grammar of its part of speech',
  'For every part of speech the number, meaning and order of the form slots is the lexicographic enumeration of the schema under the grammar\'s restrictions (a plural has no gender, an infinitive no tense, a short form no case, ...): 18 noun, 101 adjective, 48 pronoun, 20 verb, 148 participle, 1 integer, 1 text and 3 preposition slots. Word.get_keys, Word.get_forms_number, all_forms() and the WORDS_CACHES / INVERTED_WORDS_CACHES tables all describe that same layout, and Word.create_test_word labels each slot with the identifiers of its properties in it. A Word can be built exactly when the number of its forms equals that number; otherwise WrongFormsNumberError is raised.',
  ['configurations', 'inputs'], 'every part of speech, every slot of its layout, every number of forms',
  'Tests sample a few keys and some sizes; stored dictionaries depend on the meaning of all 340 positions.',
  ['utg/logic.py', 'utg/restrictions.py', 'utg/relations.py', 'utg/data.py', 'utg/words.py'],
  [('slot enumeration', 'utg/logic.py:_keys_generator'), ('forbidden combinations', 'utg/restrictions.py:RESTRICTED_KEY_PARTS'), ('constructor check', 'utg/words.py:Word.__init__')],
  ['Word.get_keys', 'Word.get_forms_number', 'Word.all_forms', 'data.WORDS_CACHES'])

p('U02', 'Every property request selects the grammatically right form of a word',
  'Word.form(properties) is total: the word\'s own properties override the request, unspecified properties take their defaults, properties a slot does not distinguish are ignored, and the form returned is that of the unique slot agreeing with everything else. A combination that the grammar does not have (a countable singular, a third person imperative, ...) gives the form of the existing combination that agrees with it best, later schema positions weighing slightly more and the earlier slot winning a tie. normal_form() is form() at the word\'s own properties, and a WordForm shows the form of its form_properties (its properties when none are given), again under the word\'s own properties.',
  ['inputs'], 'every part of speech x every combination of specified and unspecified properties x every set of own properties',
  'There are about 1100 complete raw keys and far more partial ones; the unit tests check a handful.',
  ['utg/words.py', 'utg/logic.py', 'utg/data.py'],
  [('raw key resolution', 'utg/words.py:Word._form'), ('own properties win', 'utg/words.py:Word.form'), ('fallback for missing combinations', 'utg/logic.py:_get_raw_cache'), ('word form', 'utg/words.py:WordForm')],
  ['Word.form', 'Word.normal_form', 'WordForm.form', 'data.RAW_WORDS_CACHES'])

p('U03', 'Property sets: later values win, the rest keep defaults, nothing is mutated',
  'A Properties built or cloned from any sequence of single properties, other Properties and None holds, for each property kind, the last value given; get() of a kind that was not given returns the default (the first record, None for the part of speech) and is_specified() tells the two apart. clone() and every function that takes Properties leave their arguments unchanged. Two Properties are equal exactly when they specify the same values, equal ones hash equally, manhattan_distance() counts the specified non-default values, and str() lists the markup identifiers in the fixed property order.',
  ['inputs', 'programs'], 'every sequence of property arguments and every chain of clones',
  'Override order and aliasing depend on the whole argument sequence; tests try two or three.',
  ['utg/words.py', 'utg/logic.py'],
  [('merge', 'utg/words.py:Properties._update'), ('defaults', 'utg/logic.py:get_default_properties'), ('text', 'utg/words.py:Properties.__str__')],
  ['Properties.get', 'Properties.is_specified', 'Properties.clone', 'Properties.__eq__', 'Properties.__hash__', 'Properties.manhattan_distance', 'str(Properties)'])

p('U04', 'Saved words, properties and templates load back equal and behave the same',
  'Serializing any Properties, Word or Template, passing it through JSON text and deserializing it gives an equal object that inflects, matches and renders identically, and serializing that again gives the same document. A document stores the part of speech and the properties by their persistent numbers. Unknown property numbers or values in a saved document are skipped and everything else in it is kept.',
  ['inputs', 'histories'], 'every object the public API can build, including words with empty forms and templates with any mix of externals, properties, repeated variables and special characters',
  'The tests only compare a few serializations with each other without JSON and without checking behaviour.',
  ['utg/words.py', 'utg/templates.py'],
  [('properties by number', 'utg/words.py:Properties.serialize/deserialize'), ('word', 'utg/words.py:Word.serialize/deserialize'), ('template', 'utg/templates.py:Template.serialize/deserialize')],
  ['serialize()', 'deserialize()', '==', 'rendered text after reload'])

p('U05', 'Persistent numbers and markup identifiers of properties never change meaning',
  'Every property value keeps the number under which it is saved and the short Russian identifier by which template markup names it (the list in README), every property kind keeps its PROPERTY_TYPE number, and every part of speech keeps its schema and the list of properties its words have of their own. Identifiers are unique over all kinds. Documents saved and templates written earlier therefore keep their meaning.',
  ['inputs', 'configurations'], 'every property value, every property kind and every part of speech',
  'The tests check uniqueness of identifiers but not their meaning; a swapped number or identifier is invisible to them.',
  ['utg/relations.py', 'utg/logic.py', 'README.rst'],
  [('property records', 'utg/relations.py'), ('identifier lookup', 'utg/logic.py:get_verbose_to_relations')],
  ['relations.*.value', 'relations.*.verbose_id', 'data.VERBOSE_TO_PROPERTIES', 'Properties.serialize'])

p('U06', 'Literal template text is reproduced exactly around the substituted words',
  'Rendering a template gives its source text with each bracketed variable, in order, replaced by the text of its word and every other character unchanged: percent signs, stray or empty brackets, line breaks, repeated variables and any other symbols stay as written. A substituted word is inserted verbatim whatever characters it contains. A variable is a "[" up to the next "]" with at least one character between them.',
  ['inputs'], 'every template text over literal characters, brackets, bars, commas, percent signs, spaces and line breaks; every word text',
  'A template is free text; tests try two templates.',
  ['utg/templates.py'],
  [('variable search', 'utg/templates.py:_VARIABLE_REGEX'), ('escaping', 'utg/templates.py:Template.parse'), ('assembly', 'utg/templates.py:Template.substitute')],
  ['Template.substitute', 'Template.serialize'])

p('U07', 'Template markup is parsed as documented',
  'In [id|x|y,...] the id is the first part with surrounding spaces removed, in lower case; each further part is, in the order written, an external if it names one and otherwise a comma separated list of property identifiers, later ones winning; letter case and spaces around parts and identifiers do not matter. An id written with a capital letter adds the request for a capital letter after all other dependencies. A variable with no id raises WrongDependencyFormatError and an unknown identifier raises UnknownVerboseIdError.',
  ['inputs'], 'every variable text and every set of external names, including names that look like property identifiers',
  'The markup grammar has unboundedly many inputs; tests cover eight.',
  ['utg/templates.py'],
  [('variable parser', 'utg/templates.py:Substitution.parse'), ('property list parser', 'utg/templates.py:Substitution.parse_properties')],
  ['Template.parse', 'Template.serialize', 'Substitution.parse', 'rendered text'])

p('U08', 'Rendering merges properties in the documented order and capitalizes correctly',
  'The word of a variable is the external of that name if there is one, otherwise the dictionary word whose form is the id, whose own form properties (the tense of a past tense verb, ...) are kept. On them are applied, each overriding the earlier ones, the dependencies in the order written (an external contributes all its properties), then the word\'s own fixed properties, then agreement with each external in order. The word appears in the resulting form, with its first letter and only that letter raised when the result asks for upper case.',
  ['inputs', 'programs'], 'every combination of words, externals, dependency lists and dictionaries',
  'The result depends on products of word type, form, dependencies and order that tests barely sample.',
  ['utg/templates.py', 'utg/words.py', 'utg/transformators.py'],
  [('merge order', 'utg/templates.py:Substitution.get_text'), ('dependencies', 'utg/templates.py:Substitution._list_propeties'), ('capital letter', 'utg/words.py:WordForm.get_form')],
  ['Template.substitute', 'Substitution.get_text'])

p('U09', 'Nouns and pronouns agree with numerals by the rules of Russian',
  'After an integer a noun or pronoun is: singular with the requested case after 1 (21, ...); genitive singular after 2-4 in the nominative and, if inanimate, the accusative, and after compound numbers ending in 2-4 in nominative and accusative; genitive plural counted form after 5 and more in nominative and accusative; always genitive plural after a million or billion; otherwise the plural counted form of the requested case. In the semantic dependency mode only the number changes (singular for 1-type numerals, plural otherwise) with the normal noun form. No other property is changed.',
  ['inputs'], 'all combinations of numeral class, case, animacy, number, gender and dependency mode, specified or defaulted, for every integer and every noun or pronoun',
  'Tests check sample phrases; the rule table has hundreds of cells and defaults interact with it.',
  ['utg/transformators.py', 'utg/templates.py'],
  [('noun rule', 'utg/transformators.py:_noun_integer'), ('dispatch', 'utg/transformators.py:transform')],
  ['transformators.transform', 'Template.substitute'])

p('U10', 'Adjectives, participles and verbs agree with numerals by the rules of Russian',
  'After an integer an adjective, participle or verb is: singular after 1 (21, ...); after 2-4 in nominative and accusative plural, genitive for masculine and neuter and nominative for feminine; after compound numbers ending in 2-4 in nominative and accusative singular genitive; after 5 and more in nominative and accusative genitive plural; always genitive plural after a million or billion; otherwise plural in the requested case. In the semantic dependency mode only the number changes. No other property is changed, and pairs of parts of speech without a rule are left as they are.',
  ['inputs'], 'all combinations of numeral class, case, gender, number and dependency mode for all 64 pairs of parts of speech',
  'As for nouns: a table of hundreds of cells sampled by a few phrases.',
  ['utg/transformators.py', 'utg/templates.py'],
  [('adjective rule', 'utg/transformators.py:_adjective_integer'), ('dispatch', 'utg/transformators.py:transform')],
  ['transformators.transform', 'Template.substitute'])

p('U11', 'Every integer is written in decimal and classified by its numeral rule',
  'construct_integer(n) is an integer word whose text is the decimal notation of n and whose properties follow |n|: exactly a million or a billion; 1; 2-4; numbers ending in 10-19; other numbers ending in 1; other numbers ending in 2-4; all others. Only 1 and -1 are grammatically singular. The result is the same for small (cached) and large numbers, whatever was constructed or rendered before.',
  ['inputs', 'histories'], 'every integer, negative and arbitrarily large, in any order of calls',
  'Tests sample some integers; cache borders and long numbers are not covered.',
  ['utg/constructors.py'],
  [('classification', 'utg/constructors.py:_construct_integer'), ('cache', 'utg/constructors.py:construct_integer')],
  ['construct_integer(n).form', 'construct_integer(n).properties'])

p('U12', 'A preposition takes the form its following word requires',
  'A preposition ending in a consonant takes its alternative form before a one-syllable word with a fluent vowel starting with a consonant cluster, and "в" and "с" also before a cluster starting with the same letter. A preposition ending in a vowel takes the alternative form before a word starting with a vowel other than е, ё, ю, я, except that "о" takes the special form before всех, мне, всём, что and всей. Otherwise its form is unchanged; the letter case of the governed word does not matter and its actual inflected form decides.',
  ['inputs'], 'every preposition and every governed word form, of any part of speech and spelling',
  'Depends on spelling of arbitrary words; tests check a few pairs.',
  ['utg/transformators.py', 'utg/words.py'],
  [('consonant rule', 'utg/transformators.py:_consonant_preposition_any'), ('vowel rule', 'utg/transformators.py:_vowels_preposition_any')],
  ['transformators.transform', 'Template.substitute'])

p('U13', 'The choice between homonyms is fixed and independent of insertion order',
  'When several registered forms share a text, get_word returns the one whose word has the smallest part of speech number, then the lexicographically smallest list of forms, then the fewest non-default properties; only forms equal in all three fall back to the first registered. Hence, except for such ties, the result of every lookup is the same for every order in which the same words were added, added at once or one by one, and however often a word is added.',
  ['programs', 'histories'], 'every set of words with shared forms and every order of adding them',
  'Order dependence appears only for particular orders of particular homonyms.',
  ['utg/dictionary.py'],
  [('conflict resolution', 'utg/dictionary.py:Dictionary.add_word')],
  ['Dictionary.get_word', 'Template.substitute'], state=['Dictionary._data'])

p('U14', 'Every form of every added word is recognized, and nothing else',
  'After any sequence of add_word, has_word(t) is true exactly for the texts that are forms of some added word (under its own fixed properties), get_word(t) then returns a word form that reads exactly t and belongs to an added word, and otherwise raises NoWordsFoundError. get_words() returns exactly the distinct words that own at least one text. Adding words never makes a text unknown.',
  ['programs', 'histories'], 'every sequence of additions and lookups, words of every part of speech',
  'Needs all forms of all word types over histories; tests look up a few.',
  ['utg/dictionary.py', 'utg/words.py'],
  [('registration of all forms', 'utg/dictionary.py:Dictionary.add_word'), ('all_forms', 'utg/words.py:Word.all_forms')],
  ['Dictionary.has_word', 'Dictionary.get_word', 'Dictionary.get_words'], state=['Dictionary._data'])

p('U15', 'get_undictionaried_words predicts exactly which words rendering would not find',
  'get_undictionaried_words(externals, dictionary) lists, in order of occurrence and with repetitions, the ids of the variables that are neither externals nor forms known to the dictionary. If it is empty, substitution with those externals never raises NoWordsFoundError; if it is not, substitution fails, and it fails with NoWordsFoundError naming the first listed word unless a variable before that one depends on an external that was not given.',
  ['inputs', 'histories'], 'every template, set of externals and dictionary content at any time',
  'Relates two operations over all templates and dictionaries; tests check one example.',
  ['utg/templates.py', 'utg/dictionary.py'],
  [('missing words', 'utg/templates.py:Template.get_undictionaried_words'), ('lookup', 'utg/dictionary.py:Dictionary.get_word')],
  ['Template.get_undictionaried_words', 'Template.substitute'])

p('U16', 'The lexicon offers exactly the templates whose restrictions are satisfied',
  'get_templates(key, restrictions) returns, in the order of addition and with repetitions, exactly the templates added under that key whose own restrictions are all among the given ones (an empty result for an unknown key). get_random_template returns one of them, each of them being possible, raises UnknownLexiconKeyError for a key never added and NoTemplatesWithSpecifiedRestrictions when none fits. has_key is true exactly for keys that have a template, and other keys never influence the result.',
  ['programs', 'histories'], 'every sequence of additions and every query',
  'Set inclusion over arbitrary restriction sets and histories; tests use two or three sets.',
  ['utg/lexicon.py'],
  [('filter', 'utg/lexicon.py:Lexicon.get_templates'), ('choice', 'utg/lexicon.py:Lexicon.get_random_template')],
  ['Lexicon.get_templates', 'Lexicon.get_random_template', 'Lexicon.has_key'], state=['Lexicon._data'])

p('U17', 'The nearest template is always one of the most specific eligible ones',
  'get_random_nearest_template(key, restrictions) returns a template whose restrictions are all among the given ones and that has the greatest number of them among all such templates, each of the equally specific ones being possible. It raises UnknownLexiconKeyError for an unknown key and NoTemplatesWithSpecifiedRestrictions exactly when no template of the key is eligible. The order of addition does not matter.',
  ['programs', 'histories'], 'every sequence of additions and every query',
  'The maximum must be taken over all orders and sets; the choice is random.',
  ['utg/lexicon.py'],
  [('nearest', 'utg/lexicon.py:Lexicon._get_nearest_templates'), ('choice', 'utg/lexicon.py:Lexicon.get_random_nearest_template')],
  ['Lexicon.get_random_nearest_template'], state=['Lexicon._data'])

p('U18', 'Autofill fills missing forms from the nearest given ones and nothing else',
  'autofill_missed_forms() gives every empty slot the text of the originally given slot whose grammatical meaning is nearest: agreement in the greatest number of schema positions, later positions weighing slightly more, the earlier slot on a tie. Given forms, the type and the properties stay unchanged, a word without any form stays empty, and a second call changes nothing. Afterwards all derived values of the word (syllables, fluent vowel) and the word forms made from then on describe the completed word.',
  ['inputs', 'histories'], 'every part of speech and every subset of given slots',
  'There are 2^148 subsets of participle slots; tests try a few.',
  ['utg/words.py', 'utg/logic.py'],
  [('autofill', 'utg/words.py:Word.autofill_missed_forms'), ('nearest key', 'utg/logic.py:get_nearest_key')],
  ['Word.forms', 'Word.number_of_syllables', 'Word.has_fluent_vowel'])

p('U19', 'Rendering and lookups have no side effects and are repeatable',
  'Rendering, inflecting, looking up, serializing, listing missing words, constructing integers, querying the lexicon and failing in any of them change no word, word form, property set, template, dictionary, lexicon or argument. The same call on the same objects therefore gives the same result at any later time, whatever was called in between, in the midst of it (by externals that are looked up lazily), or by other threads at the same time. Objects created independently share no state.',
  ['programs', 'histories'], 'every interleaving of operations, also by threads, over shared words, externals, templates and dictionaries',
  'Hidden state leaks show only after particular histories; unit tests use fresh objects.',
  ['utg/words.py', 'utg/templates.py', 'utg/transformators.py', 'utg/constructors.py', 'utg/dictionary.py', 'utg/lexicon.py'],
  [('cloning', 'utg/words.py:Properties.clone'), ('lazy values', 'utg/utils.py:lazy_property'), ('integer cache', 'utg/constructors.py:construct_integer')],
  ['all public results, repeated', 'state of all objects after each history'])

p('U20', 'Parsing a template replaces it completely or not at all',
  'After Template.parse succeeds the template depends only on the last text parsed and its externals, however often and with whatever it was parsed before. After it fails the template is exactly what it was before the call: it renders, serializes and compares as then.',
  ['histories', 'fault_sequences'], 'every sequence of successful and failing parses of one template object, interleaved with rendering',
  'Every test parses a fresh template once.',
  ['utg/templates.py'],
  [('parse', 'utg/templates.py:Template.parse')],
  ['Template.substitute', 'Template.serialize', 'Template.__eq__'], state=['Template.template', 'Template._substitutions'])

p('U21', 'Migrations carry every form to the slot of the same meaning in the next layout',
  'Each layout migration (1, 3, 6, 7, 8, 9) turns a saved word of the previous layout into one of the next in which every slot holds the form of the old slot with the same meaning, or, where the layouts distinguish different properties, of an old slot that agrees in all properties both have and shares as many as possible (of a pronoun, whose new slots have no person since 9, the third-person one; the present indicative of verbs, new in 3, may come from any old slot closest to it); type and properties are kept. Migrations 2, 4 and 5 add the countable noun forms, add the special preposition form and drop the participle tense property and leave other words alone. Every migration can be loaded and run, and a word of any epoch migrated through all later migrations is loadable by the current code, has the current number of forms, each from an old slot of compatible meaning, and keeps its own properties.',
  ['inputs', 'histories'], 'every part of speech and every slot of every frozen layout, alone and along the chains from every epoch to the present',
  'The migrations have no tests at all.',
  ['utg/migrations/'],
  [('frozen layouts', 'utg/migrations/m_000*.py:OLD_CACHES/NEW_CACHES'), ('mapping', 'utg/migrations/m_000*.py:migrate_forms')],
  ['migrate(word_data)', 'Word.deserialize'])

p('U22', 'Derived phonetics follow the spelling: syllables, fluent vowel, initial cluster',
  'number_of_syllables is the number of Russian vowels in the word\'s first form and at least 1; has_fluent_vowel is true exactly when the vowels of some other non-empty form do not begin with those of the first form; starts_with_consonant_cluster is true exactly when the shown form begins with a Russian consonant letter (ъ and ь included, any letter case) followed by another or by nothing. They are defined for every word, including empty forms.',
  ['inputs'], 'every word of every part of speech, any spelling, any combination of empty forms',
  'Depends on arbitrary spellings; tests check about ten words.',
  ['utg/words.py', 'utg/data.py', 'utg/utils.py'],
  [('syllables', 'utg/words.py:Word.number_of_syllables'), ('fluent vowel', 'utg/words.py:Word.has_fluent_vowel'), ('cluster', 'utg/words.py:WordForm.starts_with_consonant_cluster')],
  ['Word.number_of_syllables', 'Word.has_fluent_vowel', 'WordForm.starts_with_consonant_cluster'])

p('U23', 'Words, word forms and templates compare by value, and hashes agree',
  'Two Words are equal exactly when type, forms and properties are equal; two WordForms exactly when their words and properties are equal; two Templates exactly when their text and substitutions are equal. Equal Properties, Words and WordForms have equal hashes, != is always the negation of ==, and comparing with an object of any other type gives False. The hash of an object does not depend on which derived values were read before.',
  ['inputs', 'histories'], 'all pairs of objects the API can build, in any state of their lazy values',
  'Equality laws quantify over pairs; tests compare a few.',
  ['utg/words.py', 'utg/templates.py'],
  [('word', 'utg/words.py:Word.__eq__/__hash__'), ('word form', 'utg/words.py:WordForm.__eq__/__hash__'), ('template', 'utg/templates.py:Template.__eq__')],
  ['==', '!=', 'hash()', 'membership in sets and dicts'])

p('U24', 'Failures are reported by the documented exceptions and name the culprit',
  'For text arguments and well-typed objects the only failures are the library\'s own exceptions: a missing word NoWordsFoundError, a missing external ExternalDependecyNotFoundError, malformed markup WrongDependencyFormatError, an unknown property UnknownVerboseIdError, a wrong number of forms WrongFormsNumberError, and for the lexicon UnknownLexiconKeyError and NoTemplatesWithSpecifiedRestrictions, all of them UtgError. The exception\'s arguments name the first offending word, external, identifier or key, and its message can always be formed. Words with unspecified (empty) forms render as empty text rather than failing.',
  ['inputs', 'fault_sequences'], 'every template text, word, dictionary and query, and every point at which an operation can fail',
  'Needs all error combinations and their order; tests assert some classes only.',
  ['utg/exceptions.py', 'utg/templates.py', 'utg/dictionary.py', 'utg/lexicon.py', 'utg/words.py', 'utg/transformators.py'],
  [('exceptions', 'utg/exceptions.py'), ('rendering errors', 'utg/templates.py:Substitution.get_text'), ('lookup errors', 'utg/dictionary.py:Dictionary.get_word')],
  ['raised exception class, arguments and message'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w', encoding='utf-8') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
