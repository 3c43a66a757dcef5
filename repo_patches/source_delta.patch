From 43890d028d7b64c5066f25b6c79e310e221b76d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 01/14] fix: ignore spaces around property identifiers in
 template markup

---
 utg/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/templates.py b/utg/templates.py
index 82a5c90..4184906 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -61,7 +61,7 @@ class Substitution(object):
     def parse_properties(cls, text):
         properties = []
         for slug in text.split(','):
-            slug.strip()
+            slug = slug.strip()
 
             if not slug:
                 continue
-- 
2.43.0


From 3e68905ac322cca145132a3a70dd470709d4c6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 02/14] fix: report a blank variable id as
 WrongDependencyFormatError instead of IndexError

---
 utg/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/templates.py b/utg/templates.py
index 4184906..359c8b4 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -35,7 +35,7 @@ class Substitution(object):
     def parse(cls, variable, externals):
         slugs = variable[1:-1].split('|')
 
-        if not slugs[0]:
+        if not slugs[0].strip():
             raise exceptions.WrongDependencyFormatError(dependency=variable)
 
         s = cls()
-- 
2.43.0


From 2f16ac639fa026d8a7449411d92aee12f2207f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 03/14] fix: do not keep substitutions of a previous or failed
 parse of a template

---
 utg/templates.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utg/templates.py b/utg/templates.py
index 359c8b4..c74d98f 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -160,10 +160,13 @@ class Template(object):
 
         variables = _VARIABLE_REGEX.findall(text)
 
+        substitutions = []
+
         for i, variable in enumerate(variables):
-            self._substitutions.append(Substitution.parse(variable, externals=externals))
+            substitutions.append(Substitution.parse(variable, externals=externals))
             text = text.replace(variable, '%s', 1)
 
+        self._substitutions = substitutions
         self.template = text
 
     def substitute(self, externals, dictionary):
-- 
2.43.0


From cb22f6d0b374ea5bbef8a4bb980fa7419ef7baad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 04/14] fix: do not double percent signs inside template
 variables

---
 utg/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/templates.py b/utg/templates.py
index c74d98f..f7deb38 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -163,7 +163,7 @@ class Template(object):
         substitutions = []
 
         for i, variable in enumerate(variables):
-            substitutions.append(Substitution.parse(variable, externals=externals))
+            substitutions.append(Substitution.parse(variable.replace('%%', '%'), externals=externals))
             text = text.replace(variable, '%s', 1)
 
         self._substitutions = substitutions
-- 
2.43.0


From 6559f961c85076575410042dc955a72ccf55e1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 05/14] fix: return text, not bytes, from Properties.__str__

---
 utg/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/words.py b/utg/words.py
index 058143c..f71d7cb 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -58,7 +58,7 @@ class Properties(object):
                                   if property.relation in self._data))
 
     def __str__(self):
-        return self.__unicode__().encode('utf-8')
+        return self.__unicode__()
 
     def __eq__(self, other):
         return (isinstance(other, Properties) and
-- 
2.43.0


From 1b208919484257b871925ababe4cc52ab30587a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 06/14] fix: hash equal word forms equally

---
 utg/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/words.py b/utg/words.py
index f71d7cb..13520d6 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -242,7 +242,7 @@ class WordForm(object):
         return not self.__eq__(other)
 
     def __hash__(self):
-        return hash((self.word, self.form_properties))
+        return hash((self.word, self.properties))
 
 
 _INVERTED_WORDS_CACHES__PROPERTIES = {}
-- 
2.43.0


From 4c7ac38f12a8820f4bfbb51de5513f60d43faea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 07/14] fix: do not fail on unspecified (empty) forms

---
 utg/transformators.py | 6 +++---
 utg/words.py          | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/utg/transformators.py b/utg/transformators.py
index cde463a..1539c86 100644
--- a/utg/transformators.py
+++ b/utg/transformators.py
@@ -23,7 +23,7 @@ def _preposition_any(properties, slave_word, master_form):
 
     slave = slave_word.normal_form()
 
-    if slave[-1] in data.CONSONANTS:
+    if slave[-1:] in data.CONSONANTS:
         return _consonant_preposition_any(slave, properties, slave_word, master_form)
 
     return _vowels_preposition_any(slave, properties, slave_word, master_form)
@@ -43,7 +43,7 @@ def _consonant_preposition_any(slave, properties, slave_word, master_form):
 
     # 2) часто после предлогов в и с, если с этих же согласных начинается последующее стечение согласных, например: во власти, во внушении, со слезами, со словами, со страху;
     if (slave in ('в', 'с') and
-        slave == master[0] and
+        slave == master[:1] and
         master_form.starts_with_consonant_cluster):
         return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)
 
@@ -72,7 +72,7 @@ def _vowels_preposition_any(slave, properties, slave_word, master_form):
         return properties.clone(r.PREPOSITION_FORM.SPECIAL)
 
     # Если существительное начинается на гласную (кроме йотированных), то пишем ОБ: сообщить об отъезде, удариться об асфальт. Это фонетический принцип.
-    if master[0] in data.NOT_J_VOWELS:
+    if master[:1] in data.NOT_J_VOWELS:
         return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)
 
     # Прелоги участвуют в управлении В.п. или П.п. Для В.п. характерен предлог ОБ: удариться об дерево, об стену,
diff --git a/utg/words.py b/utg/words.py
index 13520d6..238dfa8 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -220,7 +220,7 @@ class WordForm(object):
         form = word._form(properties)
 
         if properties.get(r.WORD_CASE).is_UPPER:
-            form = form[0].upper() + form[1:]
+            form = form[:1].upper() + form[1:]
 
         return form
 
@@ -231,7 +231,7 @@ class WordForm(object):
     @utils.lazy_property
     def starts_with_consonant_cluster(self):
         form = self.form
-        return (form[0] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS)
+        return (form[:1] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS)
 
 
     def __eq__(self, other):
-- 
2.43.0


From 8ac0e0d07aba6231c4be88dd79ada25566f048fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 08/14] fix: recalculate derived values of a word after
 autofill

---
 utg/words.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utg/words.py b/utg/words.py
index 238dfa8..63f333b 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -204,6 +204,10 @@ class Word(object):
 
             self.forms[i] = self.forms[data.WORDS_CACHES[self.type][nearest_key]]
 
+        # derived values could be calculated from the incomplete forms
+        del self.number_of_syllables
+        del self.has_fluent_vowel
+
 
 
 class WordForm(object):
-- 
2.43.0


From e6c63150cf4c530a9a537f120e315edc10d58a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 09/14] fix: choose preposition form regardless of letter case
 of the governed word

---
 utg/transformators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utg/transformators.py b/utg/transformators.py
index 1539c86..202e82b 100644
--- a/utg/transformators.py
+++ b/utg/transformators.py
@@ -32,7 +32,7 @@ def _preposition_any(properties, slave_word, master_form):
 def _consonant_preposition_any(slave, properties, slave_word, master_form):
     # http://newforum.gramota.ru/viewtopic.php?f=3&t=1045
 
-    master = master_form.form
+    master = master_form.form.lower()
 
     # 1) перед односложным словом, начинающимся со стечения согласных, с беглым гласным в корне,
     #    например: во сне (ср.: в сновидениях), во рту (ср.: в ртутных испарениях), во льну (ср.: в льнотеребилках), ко мне (ср.: к мнимой величине);
@@ -62,7 +62,7 @@ def _consonant_preposition_any(slave, properties, slave_word, master_form):
 def _vowels_preposition_any(slave, properties, slave_word, master_form):
     # http://russ.hashcode.ru/questions/33493/правописание-предлог-об-и-обо
 
-    master = master_form.form
+    master = master_form.form.lower()
 
     # Прелоги ОБО используется в особых случаях,
     # а именно с некоторыми местоимениями: обо мне, обо всех, обо всём (П.п.), обо что (В.п.), но: о тебе, о других, о чём.
-- 
2.43.0


From e6fe1faf4d147ae01652db786959cb3104f9e508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 10/14] fix: compare word forms and templates with other
 objects without AttributeError

---
 utg/templates.py | 6 ++++--
 utg/words.py     | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/utg/templates.py b/utg/templates.py
index f7deb38..3758089 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -116,7 +116,8 @@ class Substitution(object):
         return words.WordForm.get_form(base_form.word, form_properties)
 
     def __eq__(self, other):
-        return (self.id == other.id and
+        return (isinstance(other, Substitution) and
+                self.id == other.id and
                 self.dependencies == other.dependencies)
 
 
@@ -175,5 +176,6 @@ class Template(object):
         return self.template % substitutions
 
     def __eq__(self, other):
-        return (self._substitutions == other._substitutions and
+        return (isinstance(other, Template) and
+                self._substitutions == other._substitutions and
                 self.template == other.template)
diff --git a/utg/words.py b/utg/words.py
index 63f333b..eb63d0c 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -239,7 +239,8 @@ class WordForm(object):
 
 
     def __eq__(self, other):
-        return (self.word == other.word and
+        return (isinstance(other, WordForm) and
+                self.word == other.word and
                 self.properties == other.properties)
 
     def __ne__(self, other):
-- 
2.43.0


From 0c98d6845451b8ef26bbd36ae9004cc57ee6170c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 11/14] fix: keep the comparative form of adjectives in
 migration 7

---
 utg/migrations/m_0007_reduce_words_forms.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/utg/migrations/m_0007_reduce_words_forms.py b/utg/migrations/m_0007_reduce_words_forms.py
index c8075f0..f091d9d 100644
--- a/utg/migrations/m_0007_reduce_words_forms.py
+++ b/utg/migrations/m_0007_reduce_words_forms.py
@@ -22,10 +22,18 @@ def migrate_forms(word_data, old_cache, new_cache):
 
 
 def get_nearest_old_index(new_key, old_cache):
-    old_key = logic.get_nearest_key(new_key, list(old_cache.keys()))
+    # a slot must not receive the form of a slot with another meaning (for example, a comparative — the short plural)
+    compatible_keys = [old_key for old_key in old_cache.keys() if is_compatible(new_key, old_key)]
+
+    old_key = logic.get_nearest_key(new_key, compatible_keys)
     return old_cache[old_key]
 
 
+def is_compatible(new_key, old_key):
+    return all(new_property is None or old_property is None or new_property == old_property
+               for new_property, old_property in zip(new_key, old_key))
+
+
 OLD_CACHES = {WORD_TYPE.NOUN: {(NOUN_FORM.NORMAL, NUMBER.SINGULAR, CASE.NOMINATIVE): 0,
                   (NOUN_FORM.NORMAL, NUMBER.SINGULAR, CASE.GENITIVE): 1,
                   (NOUN_FORM.NORMAL, NUMBER.SINGULAR, CASE.DATIVE): 2,
-- 
2.43.0


From 1a4908f55e36ec3b2332d588a5b812269c7b88e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:25 +0000
Subject: [PATCH 12/14] fix: keep migration 6 importable and give it the layout
 of its time

VERB_FORM.CONDITIONAL does not exist anymore, so the module failed on import;
the target layout was the live one, which has changed since.
---
 .../m_0006_per_word_type_restrictions.py      | 41 +++++++++++++++----
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/utg/migrations/m_0006_per_word_type_restrictions.py b/utg/migrations/m_0006_per_word_type_restrictions.py
index 3d3a025..9c2196c 100644
--- a/utg/migrations/m_0006_per_word_type_restrictions.py
+++ b/utg/migrations/m_0006_per_word_type_restrictions.py
@@ -1,13 +1,15 @@
 # coding: utf-8
 
 from utg.relations import *
-from utg import data
 from utg import logic
 
+# VERB_FORM has no such record anymore, but the layouts of that time have its slots
+CONDITIONAL = 'conditional'
+
 # receive and return only serialized data
 def migrate(word_data):
     word_type = WORD_TYPE(word_data['type'])
-    return migrate_forms(word_data, OLD_CACHES[word_type], data.WORDS_CACHES[word_type])
+    return migrate_forms(word_data, OLD_CACHES[word_type], NEW_CACHES[word_type])
 
 
 def migrate_forms(word_data, old_cache, new_cache):
@@ -23,10 +25,18 @@ def migrate_forms(word_data, old_cache, new_cache):
 
 
 def get_nearest_old_index(new_key, old_cache):
-    old_key = logic.get_nearest_key(new_key, list(old_cache.keys()))
+    # a slot must not receive the form of a slot with another meaning (for example, a present participle — the past one)
+    compatible_keys = [old_key for old_key in old_cache.keys() if is_compatible(new_key, old_key)]
+
+    old_key = logic.get_nearest_key(new_key, compatible_keys)
     return old_cache[old_key]
 
 
+def is_compatible(new_key, old_key):
+    return all(new_property is None or old_property is None or new_property == old_property
+               for new_property, old_property in zip(new_key, old_key))
+
+
 OLD_CACHES = {WORD_TYPE.NOUN: {(NOUN_FORM.NORMAL, NUMBER.SINGULAR, CASE.NOMINATIVE): 0,
                   (NOUN_FORM.NORMAL, NUMBER.SINGULAR, CASE.GENITIVE): 1,
                   (NOUN_FORM.NORMAL, NUMBER.SINGULAR, CASE.DATIVE): 2,
@@ -282,10 +292,10 @@ OLD_CACHES = {WORD_TYPE.NOUN: {(NOUN_FORM.NORMAL, NUMBER.SINGULAR, CASE.NOMINATI
                   (VERB_FORM.INDICATIVE, TIME.FUTURE, NUMBER.PLURAL, PERSON.FIRST, None): 14,
                   (VERB_FORM.INDICATIVE, TIME.FUTURE, NUMBER.PLURAL, PERSON.SECOND, None): 15,
                   (VERB_FORM.INDICATIVE, TIME.FUTURE, NUMBER.PLURAL, PERSON.THIRD, None): 16,
-                  (VERB_FORM.CONDITIONAL, None, NUMBER.SINGULAR, None, GENDER.MASCULINE): 17,
-                  (VERB_FORM.CONDITIONAL, None, NUMBER.SINGULAR, None, GENDER.NEUTER): 18,
-                  (VERB_FORM.CONDITIONAL, None, NUMBER.SINGULAR, None, GENDER.FEMININE): 19,
-                  (VERB_FORM.CONDITIONAL, None, NUMBER.PLURAL, None, None): 20,
+                  (CONDITIONAL, None, NUMBER.SINGULAR, None, GENDER.MASCULINE): 17,
+                  (CONDITIONAL, None, NUMBER.SINGULAR, None, GENDER.NEUTER): 18,
+                  (CONDITIONAL, None, NUMBER.SINGULAR, None, GENDER.FEMININE): 19,
+                  (CONDITIONAL, None, NUMBER.PLURAL, None, None): 20,
                   (VERB_FORM.IMPERATIVE, None, NUMBER.SINGULAR, PERSON.FIRST, None): 21,
                   (VERB_FORM.IMPERATIVE, None, NUMBER.SINGULAR, PERSON.SECOND, None): 22,
                   (VERB_FORM.IMPERATIVE, None, NUMBER.SINGULAR, PERSON.THIRD, None): 23,
@@ -493,3 +503,20 @@ OLD_CACHES = {WORD_TYPE.NOUN: {(NOUN_FORM.NORMAL, NUMBER.SINGULAR, CASE.NOMINATI
  WORD_TYPE.PREPOSITION: {(PREPOSITION_FORM.NORMAL,): 0,
                          (PREPOSITION_FORM.ALTERNATIVE,): 1,
                          (PREPOSITION_FORM.SPECIAL,): 2}}
+
+
+# participles of all times receive genders, other words keep their forms
+PARTICIPLE_KEYS = [(PARTICIPLE_FORM.FULL, time, voice, number, case, gender, animality)
+                   for time in (TIME.PAST, TIME.PRESENT, TIME.FUTURE)
+                   for voice in (VOICE.DIRECT, VOICE.REVERSE)
+                   for number in (NUMBER.SINGULAR, NUMBER.PLURAL)
+                   for case in (CASE.NOMINATIVE, CASE.GENITIVE, CASE.DATIVE, CASE.ACCUSATIVE, CASE.INSTRUMENTAL, CASE.PREPOSITIONAL)
+                   for gender in ((GENDER.MASCULINE, GENDER.NEUTER, GENDER.FEMININE) if number.is_SINGULAR else (None,))
+                   for animality in (ANIMALITY.ANIMATE, ANIMALITY.INANIMATE)]
+PARTICIPLE_KEYS += [(PARTICIPLE_FORM.SHORT, None, None, NUMBER.SINGULAR, None, GENDER.MASCULINE, None),
+                    (PARTICIPLE_FORM.SHORT, None, None, NUMBER.SINGULAR, None, GENDER.NEUTER, None),
+                    (PARTICIPLE_FORM.SHORT, None, None, NUMBER.SINGULAR, None, GENDER.FEMININE, None),
+                    (PARTICIPLE_FORM.SHORT, None, None, NUMBER.PLURAL, None, None, None)]
+
+NEW_CACHES = dict(OLD_CACHES)
+NEW_CACHES[WORD_TYPE.PARTICIPLE] = {key: index for index, key in enumerate(PARTICIPLE_KEYS)}
-- 
2.43.0


From 9fcc19b158a84785648365873b354b4040afe3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:25 +0000
Subject: [PATCH 13/14] fix: keep migration 3 importable and give it the layout
 of its time

---
 utg/migrations/m_0003_change_verb_forms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utg/migrations/m_0003_change_verb_forms.py b/utg/migrations/m_0003_change_verb_forms.py
index 79ea8ba..be1d8cd 100644
--- a/utg/migrations/m_0003_change_verb_forms.py
+++ b/utg/migrations/m_0003_change_verb_forms.py
@@ -1,13 +1,13 @@
 # coding: utf-8
 from utg.relations import *
-from utg import data
 from utg import logic
+from utg.migrations.m_0006_per_word_type_restrictions import CONDITIONAL, OLD_CACHES
 
 # receive and return only serialized data
 def migrate(word_data):
 
     if word_data['type'] == 3: # verb
-        migrate_forms(word_data, OLD_VERB_CACHE, data.WORDS_CACHES[WORD_TYPE.VERB])
+        migrate_forms(word_data, OLD_VERB_CACHE, OLD_CACHES[WORD_TYPE.VERB])
 
     return word_data
 
@@ -27,4 +27,4 @@ def get_nearest_old_index(new_key, old_cache):
     return old_cache[old_key]
 
 
-OLD_VERB_CACHE = {(VERB_FORM.CONDITIONAL, TIME.FUTURE, NUMBER.PLURAL, PERSON.SECOND, None): 32, (VERB_FORM.INDICATIVE, TIME.PAST, NUMBER.SINGULAR, None, GENDER.FEMININE): 7, (VERB_FORM.IMPERATIVE, TIME.FUTURE, NUMBER.SINGULAR, PERSON.THIRD, None): 27, (VERB_FORM.CONDITIONAL, TIME.PAST, NUMBER.PLURAL, None, None): 11, (VERB_FORM.IMPERATIVE, TIME.FUTURE, NUMBER.PLURAL, PERSON.FIRST, None): 30, (VERB_FORM.IMPERATIVE, TIME.PRESENT, NUMBER.PLURAL, PERSON.FIRST, None): 16, (VERB_FORM.INDICATIVE, TIME.FUTURE, NUMBER.SINGULAR, PERSON.SECOND, None): 22, (VERB_FORM.IMPERATIVE, TIME.PAST, NUMBER.PLURAL, None, None): 12, (VERB_FORM.IMPERATIVE, TIME.FUTURE, NUMBER.PLURAL, PERSON.SECOND, None): 33, (VERB_FORM.IMPERATIVE, TIME.PRESENT, NUMBER.SINGULAR, PERSON.THIRD, None): 15, (VERB_FORM.INDICATIVE, TIME.FUTURE, NUMBER.SINGULAR, PERSON.FIRST, None): 19, (VERB_FORM.IMPERATIVE, TIME.PRESENT, NUMBER.SINGULAR, PERSON.FIRST, None): 13, (VERB_FORM.CONDITIONAL, TIME.PAST, NUMBER.SINGULAR, None, GENDER.MASCULINE): 2, (VERB_FORM.CONDITIONAL, TIME.FUTURE, NUMBER.PLURAL, PERSON.FIRST, None): 29, (VERB_FORM.CONDITIONAL, TIME.PAST, NUMBER.SINGULAR, None, GENDER.NEUTER): 5, (VERB_FORM.INDICATIVE, TIME.PAST, NUMBER.PLURAL, None, None): 10, (VERB_FORM.IMPERATIVE, TIME.FUTURE, NUMBER.PLURAL, PERSON.THIRD, None): 36, (VERB_FORM.INDICATIVE, TIME.FUTURE, NUMBER.SINGULAR, PERSON.THIRD, None): 25, (VERB_FORM.CONDITIONAL, TIME.FUTURE, NUMBER.SINGULAR, PERSON.FIRST, None): 20, (VERB_FORM.IMPERATIVE, TIME.PRESENT, NUMBER.PLURAL, PERSON.THIRD, None): 18, (VERB_FORM.IMPERATIVE, TIME.PAST, NUMBER.SINGULAR, None, GENDER.MASCULINE): 3, (VERB_FORM.CONDITIONAL, TIME.PAST, NUMBER.SINGULAR, None, GENDER.FEMININE): 8, (VERB_FORM.INFINITIVE, None, None, None, None): 0, (VERB_FORM.IMPERATIVE, TIME.FUTURE, NUMBER.SINGULAR, PERSON.SECOND, None): 24, (VERB_FORM.IMPERATIVE, TIME.PRESENT, NUMBER.SINGULAR, PERSON.SECOND, None): 14, (VERB_FORM.CONDITIONAL, TIME.FUTURE, NUMBER.PLURAL, PERSON.THIRD, None): 35, (VERB_FORM.INDICATIVE, TIME.FUTURE, NUMBER.PLURAL, PERSON.FIRST, None): 28, (VERB_FORM.IMPERATIVE, TIME.FUTURE, NUMBER.SINGULAR, PERSON.FIRST, None): 21, (VERB_FORM.IMPERATIVE, TIME.PAST, NUMBER.SINGULAR, None, GENDER.NEUTER): 6, (VERB_FORM.INDICATIVE, TIME.FUTURE, NUMBER.PLURAL, PERSON.SECOND, None): 31, (VERB_FORM.IMPERATIVE, TIME.PRESENT, NUMBER.PLURAL, PERSON.SECOND, None): 17, (VERB_FORM.CONDITIONAL, TIME.FUTURE, NUMBER.SINGULAR, PERSON.THIRD, None): 26, (VERB_FORM.CONDITIONAL, TIME.FUTURE, NUMBER.SINGULAR, PERSON.SECOND, None): 23, (VERB_FORM.INDICATIVE, TIME.PAST, NUMBER.SINGULAR, None, GENDER.MASCULINE): 1, (VERB_FORM.INDICATIVE, TIME.FUTURE, NUMBER.PLURAL, PERSON.THIRD, None): 34, (VERB_FORM.INDICATIVE, TIME.PAST, NUMBER.SINGULAR, None, GENDER.NEUTER): 4, (VERB_FORM.IMPERATIVE, TIME.PAST, NUMBER.SINGULAR, None, GENDER.FEMININE): 9}
+OLD_VERB_CACHE = {(CONDITIONAL, TIME.FUTURE, NUMBER.PLURAL, PERSON.SECOND, None): 32, (VERB_FORM.INDICATIVE, TIME.PAST, NUMBER.SINGULAR, None, GENDER.FEMININE): 7, (VERB_FORM.IMPERATIVE, TIME.FUTURE, NUMBER.SINGULAR, PERSON.THIRD, None): 27, (CONDITIONAL, TIME.PAST, NUMBER.PLURAL, None, None): 11, (VERB_FORM.IMPERATIVE, TIME.FUTURE, NUMBER.PLURAL, PERSON.FIRST, None): 30, (VERB_FORM.IMPERATIVE, TIME.PRESENT, NUMBER.PLURAL, PERSON.FIRST, None): 16, (VERB_FORM.INDICATIVE, TIME.FUTURE, NUMBER.SINGULAR, PERSON.SECOND, None): 22, (VERB_FORM.IMPERATIVE, TIME.PAST, NUMBER.PLURAL, None, None): 12, (VERB_FORM.IMPERATIVE, TIME.FUTURE, NUMBER.PLURAL, PERSON.SECOND, None): 33, (VERB_FORM.IMPERATIVE, TIME.PRESENT, NUMBER.SINGULAR, PERSON.THIRD, None): 15, (VERB_FORM.INDICATIVE, TIME.FUTURE, NUMBER.SINGULAR, PERSON.FIRST, None): 19, (VERB_FORM.IMPERATIVE, TIME.PRESENT, NUMBER.SINGULAR, PERSON.FIRST, None): 13, (CONDITIONAL, TIME.PAST, NUMBER.SINGULAR, None, GENDER.MASCULINE): 2, (CONDITIONAL, TIME.FUTURE, NUMBER.PLURAL, PERSON.FIRST, None): 29, (CONDITIONAL, TIME.PAST, NUMBER.SINGULAR, None, GENDER.NEUTER): 5, (VERB_FORM.INDICATIVE, TIME.PAST, NUMBER.PLURAL, None, None): 10, (VERB_FORM.IMPERATIVE, TIME.FUTURE, NUMBER.PLURAL, PERSON.THIRD, None): 36, (VERB_FORM.INDICATIVE, TIME.FUTURE, NUMBER.SINGULAR, PERSON.THIRD, None): 25, (CONDITIONAL, TIME.FUTURE, NUMBER.SINGULAR, PERSON.FIRST, None): 20, (VERB_FORM.IMPERATIVE, TIME.PRESENT, NUMBER.PLURAL, PERSON.THIRD, None): 18, (VERB_FORM.IMPERATIVE, TIME.PAST, NUMBER.SINGULAR, None, GENDER.MASCULINE): 3, (CONDITIONAL, TIME.PAST, NUMBER.SINGULAR, None, GENDER.FEMININE): 8, (VERB_FORM.INFINITIVE, None, None, None, None): 0, (VERB_FORM.IMPERATIVE, TIME.FUTURE, NUMBER.SINGULAR, PERSON.SECOND, None): 24, (VERB_FORM.IMPERATIVE, TIME.PRESENT, NUMBER.SINGULAR, PERSON.SECOND, None): 14, (CONDITIONAL, TIME.FUTURE, NUMBER.PLURAL, PERSON.THIRD, None): 35, (VERB_FORM.INDICATIVE, TIME.FUTURE, NUMBER.PLURAL, PERSON.FIRST, None): 28, (VERB_FORM.IMPERATIVE, TIME.FUTURE, NUMBER.SINGULAR, PERSON.FIRST, None): 21, (VERB_FORM.IMPERATIVE, TIME.PAST, NUMBER.SINGULAR, None, GENDER.NEUTER): 6, (VERB_FORM.INDICATIVE, TIME.FUTURE, NUMBER.PLURAL, PERSON.SECOND, None): 31, (VERB_FORM.IMPERATIVE, TIME.PRESENT, NUMBER.PLURAL, PERSON.SECOND, None): 17, (CONDITIONAL, TIME.FUTURE, NUMBER.SINGULAR, PERSON.THIRD, None): 26, (CONDITIONAL, TIME.FUTURE, NUMBER.SINGULAR, PERSON.SECOND, None): 23, (VERB_FORM.INDICATIVE, TIME.PAST, NUMBER.SINGULAR, None, GENDER.MASCULINE): 1, (VERB_FORM.INDICATIVE, TIME.FUTURE, NUMBER.PLURAL, PERSON.THIRD, None): 34, (VERB_FORM.INDICATIVE, TIME.PAST, NUMBER.SINGULAR, None, GENDER.NEUTER): 4, (VERB_FORM.IMPERATIVE, TIME.PAST, NUMBER.SINGULAR, None, GENDER.FEMININE): 9}
-- 
2.43.0


From 1ce0446483bff5b1fd214ec6e715ff8df43bd952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:25 +0000
Subject: [PATCH 14/14] fix: give migration 1 the layouts of its time

---
 utg/migrations/m_0001_include_short_forms_in_full.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utg/migrations/m_0001_include_short_forms_in_full.py b/utg/migrations/m_0001_include_short_forms_in_full.py
index 83be4fb..ea322a7 100644
--- a/utg/migrations/m_0001_include_short_forms_in_full.py
+++ b/utg/migrations/m_0001_include_short_forms_in_full.py
@@ -1,16 +1,16 @@
 # coding: utf-8
 
 from utg.relations import *
-from utg import data
+from utg.migrations.m_0006_per_word_type_restrictions import OLD_CACHES
 
 # receive and return only serialized data
 def migrate(word_data):
 
     if word_data['type'] == 1: # adjective
-        migrate_forms(word_data, OLD_ADJECTIVE_CACHE, data.WORDS_CACHES[WORD_TYPE.ADJECTIVE])
+        migrate_forms(word_data, OLD_ADJECTIVE_CACHE, OLD_CACHES[WORD_TYPE.ADJECTIVE])
 
     if word_data['type'] == 4: # participle
-        migrate_forms(word_data, OLD_PARTICIPLE_CACHE, data.WORDS_CACHES[WORD_TYPE.PARTICIPLE])
+        migrate_forms(word_data, OLD_PARTICIPLE_CACHE, OLD_CACHES[WORD_TYPE.PARTICIPLE])
 
     return word_data
 
-- 
2.43.0

