#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F, C, T = 'pilo/fields.py', 'pilo/context.py', 'pilo/__init__.py'
S = 'pilo/source/'

#: id, title, statement, over, quantifier text, why tests cannot, files, mechanisms [(name, where)], what the check decides
P = []


def p(id, title, statement, over, text, why, files, mechanism, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, note=note, na=na))


p('C01', 'Mapping always leaves the context as it found it',
  'After a form was constructed or mapped, or a field read, the context variables, the source in use and the source '
  'path are exactly what they were before, whether the mapping succeeded, reported errors, raised them, or a hook, '
  'default or source raised an exception of its own. A later mapping in the same thread therefore behaves as in a '
  'fresh one.',
  ['inputs', 'fault_sequences'], 'all data and all places where a hook, default or source may raise',
  'Tests look at results only, and never raise from a hook at an arbitrary stage of a nested mapping.',
  [F, C], [('Context.push / Close / restore', C), ('Field.map, Form._map, List/Dict/Tuple/Group._parse', F)],
  'The depth of the context stack and every frame are compared after a mapping in which a solver-chosen hook call '
  'raises, with values symbolic.')
p('C02', 'Context variables and source paths form a stack',
  'Whatever sequence of pushes, source changes, resets, rewinds and exits is made, the context answers each variable '
  'with the innermost value pushed, and the source path with the keys pushed since the innermost source. Leaving a '
  'block restores what was seen before it, also out of a rewind and when the block is left by an exception.',
  ['histories'], 'all histories of context operations, properly nested',
  'Two unit tests run a handful of fixed histories; rewinding to an arbitrary frame and the interplay of keys and '
  'sources are not sampled.',
  [C], [('push/restore', C), ('rewind/restore(frames)', C), ('reset', C)],
  'Histories are symbolic sequences of operations, compared after each step with an independent list model.')
p('C03', 'Mappings in different threads do not affect each other',
  'A mapping gives the same values and errors whatever other mappings run at the same time in other threads, and at '
  'whatever points the threads are switched. The context a thread sees is only what it pushed itself.',
  ['schedules', 'inputs'], 'all schedules of two or three threads switching at hook and default calls, all data',
  'No test uses threads.',
  [C, F], [('Context(threading.local)', C), ('no state of a mapping on fields', F)],
  'Real threads pass a baton at every hook; the solver chooses the schedule and the data.')
p('C04', 'Mapping stages run in their documented order',
  'A field is mapped by resolving its key, computing or parsing its value, translating and munging it, filtering it, '
  'and validating it, in that order, each stage at most once and each hook receiving the value the stage before it '
  'gave. A stage that gives no value ends the mapping with the default, one that reports an error ends it without a '
  'value, and a hook replaces exactly the stage it is for.',
  ['inputs', 'programs'], 'all combinations of hooks on a field and all results these give, all data',
  'Tests use one hook at a time with one result.',
  [F], [('Field._map', F), ('Hook', F), ('Field._compute', F)],
  'Every hook returns a solver-chosen kind of result; the trace of calls and the outcome are compared with a '
  'reference pipeline.')
p('C05', 'Missing values and defaults',
  'A field that is absent from the data gets its default (a value, a callable or a default hook) if it has one and '
  'is reported missing, once and at its location, if it has none; ignoring defaults or missing fields changes only '
  'that. An optional field without a value is simply not in the form, and null is data, not absence.',
  ['inputs', 'configurations'], 'all data, all kinds of default, both ignore settings',
  'Tests use a few literal defaults.', [F], [('Field._default', F), ('Field.options', F)],
  'Form outcome against a reference mapper for every kind of default and every kind of value.')
p('C06', 'Every invalid field is reported; the others are kept',
  'A collecting mapping reports every field that is missing or invalid exactly once and in order of declaration, and '
  'a field in error does not influence the value or the errors of any other field. The form holds exactly the fields '
  'that have a valid value.',
  ['inputs'], 'all data of forms with several fields', 'Tests make one field wrong at a time.',
  [F], [('CollectErrors', F), ('Form._map', F)],
  'Outcome of a form of several fields against each field mapped alone.')
p('C07', 'Raised and collected errors agree',
  'Constructing a form, or mapping it with errors raised, raises exactly when collecting reports errors, and what is '
  'raised names errors that collecting reports. If nothing is raised the form holds the same values as after '
  'collecting.',
  ['inputs'], 'all data', 'Tests use either mode on a given form, not both on all data.',
  [F], [('RaiseErrors', F), ('Form.__init__', F), ('Form.map', F)],
  'The same symbolic data are mapped in each mode and the outcomes compared.')
p('C08', 'Errors carry the location of the offending value',
  'Every reported error is about the field it names, and its path and message name the exact place of the offending '
  'value in the source, through nested forms, lists, tuples, dicts, groups and renamed or flattened fields. The path '
  'stays that after mapping has gone on.',
  ['inputs'], 'all data of nested forms', 'Tests compare few messages, and no paths.',
  [F, C, S + '__init__.py'], [('FieldError.path', F), ('Path.__str__', S + '__init__.py'), ('Context.push(src=)', C)],
  'Places of errors against the reference mapper, nesting up to three deep.')
p('C09', 'String constraints are enforced exactly',
  'A text is accepted by a string field exactly if it satisfies all its declared constraints: length bounds, '
  'alphabet, pattern and choices (or their translations); otherwise one error is reported. An accepted text is '
  'unchanged, and a capture field holds the captured group.',
  ['inputs', 'configurations'], 'all texts up to the bound, symbolic limits', 'Tests sample a few texts.',
  [F], [('String._validate', F), ('String.capture', F)],
  'Acceptance of a symbolic text against the constraint stated independently.')
p('C10', 'Number ranges are inclusive and exact',
  'An integer, float or decimal field accepts a number exactly if it lies between its minimum and maximum, both '
  'included and each optional; NaN lies in no range. Malformed numbers are reported as errors of the field.',
  ['inputs', 'configurations'], 'all numbers and limits in the bounds', 'Tests sample a few numbers.',
  [F], [('Number._validate', F), ('Decimal._parse', F), ('Integer.pattern', F)],
  'Acceptance of symbolic numbers between symbolic limits.')
p('C11', 'Dates and times parse to what the text says',
  'A date, time or datetime field holds the moment written in the text in the declared format (or the first format '
  'that fits, or ISO 8601) and reports every other text as invalid. Values already of the type are taken as they '
  'are, and bounds are inclusive. Asked to format a value, the field writes it in its (first) format.',
  ['inputs', 'configurations'], 'all texts of the declared shape, all moments in the bounds',
  'Tests parse a few dates.', [F], [('Date._parse', F), ('Time._parse', F), ('Datetime._parse', F)],
  'Symbolic texts and moments against a calendar model.')
p('C12', 'Native data are coerced only when nothing is lost',
  'From native Python data a field accepts a value exactly if it is of its type or converts without loss: integral '
  'floats and integer texts to integers, numbers and number texts to floats, the listed words and integers to '
  'booleans, UUIDs or their texts to UUIDs. Any other value is reported as invalid and never altered silently.',
  ['inputs'], 'all scalars of all kinds within the bounds', 'Tests sample a few literals of each kind.',
  [S + '__init__.py', S + 'default.py', F], [('ParserMixin', S + '__init__.py')],
  'Every kind of symbolic scalar into every kind of field against a table of conversions.')
p('C13', 'JSON data are read with JSON typing rules',
  'A JSON document gives the same mapping as the native data it denotes, except that non-strict mode also converts '
  'scalars to text; strict mode accepts only values of the JSON type asked for. Keys containing dots and nested '
  'places are found as in native data, and encoded text is decoded first.',
  ['inputs', 'configurations'], 'all documents in the bounds, strict and not', 'Tests load one document.',
  [S + 'json.py'], [('JsonSource', S + 'json.py'), ('JsonPath.resolve', S + 'json.py')],
  'Documents with symbolic leaves against a table of conversions and against DefaultSource.')
p('C14', 'Lists and tuples map each item in order',
  'A list field holds the mapped items of the sequence in order, leaving out exactly those without a valid value, '
  'each reported at its index; length limits apply to the result. A tuple maps item by item with the field of each '
  'position and accepts only its own length.',
  ['inputs'], 'all sequences up to the bound', 'Tests use short literal lists.',
  [F], [('List._parse', F), ('Tuple._parse', F)], 'Symbolic sequences against the reference mapper.')
p('C15', 'Dict fields map every key and value',
  'A dict field holds, for every key of the data whose key and value are both valid, the mapped key with the mapped '
  'value, and nothing else; required keys and the maximum number of keys are enforced on the result. A key that is '
  'not wanted is not mapped.',
  ['inputs'], 'all mappings up to the bound', 'Tests use one literal dict.',
  [F], [('Dict._parse', F), ('Dict._validate', F)], 'Symbolic mappings against the reference mapper.')
p('C16', 'Groups collect every matching key',
  'A group holds an entry for each key of the data that one of its keys or patterns matches, mapped by the first '
  'field that matches, with the match; keys that match nothing are ignored. With no matching key the default applies.',
  ['inputs'], 'all mappings with keys in the bounds', 'Tests use one literal dict.',
  [F], [('Group._match', F), ('Group._parse', F)], 'Symbolic keys and values against a reference.')
p('C17', 'Unmapped data are captured only as asked',
  'Data that no field maps are left out of the form unless capturing is asked for; then every key the form does not '
  'already hold is added, mapped by the field (or key and value fields) given. Capturing never changes a value a '
  'field has mapped.',
  ['inputs', 'configurations'], 'all data, all capture directives', 'Tests use one directive each.',
  [F], [('Form._unmapped', F), ('SubForm.unmapped', F)], 'Symbolic data against a reference, per directive.')
p('C18', 'A nested form maps like the form alone',
  'A nested form, directly or in a list, flattened or renamed, holds what mapping its data alone gives, and its '
  'errors are those of the form alone at the place of the nested data. If it has any error it gives no value, and '
  'forms around and beside it are unaffected. Asked to (attach_parent) it knows the form it is in, and maps like '
  'without.',
  ['inputs'], 'all data of nested forms in the bounds', 'Tests nest one form once.',
  [F], [('SubForm._parse', F), ('Form._nested_map', F)],
  'The same symbolic data alone and nested; three levels against the reference mapper.')
p('C19', 'Polymorphic forms are chosen by their type field',
  'Data are mapped by the form whose type field declares the identity found in the data, and by no other; an unknown, '
  'missing or invalid identity is reported as an error. Looking for the identity has no effect on the mapping.',
  ['inputs', 'programs'], 'all identities and data in the bounds; several class hierarchies',
  'Tests use one hierarchy and valid identities.',
  [T, F], [('Types.map / Types.probe', T), ('Type.cast', F), ('PolymorphicSubForm', F)],
  'Symbolic identity text against the declared table.')
p('C20', 'Tags restrict mapping to the tagged fields',
  'Mapping with tags maps exactly the fields of the form that carry one of them and touches no other; tags set in the '
  'context apply to every form mapped in it, also nested ones, unless it is given tags of its own. A reset first '
  'forgets exactly the fields to be mapped. Mapping a form again '
  'refreshes each mapped field and leaves the others as they were.',
  ['histories', 'inputs'], 'all sequences of tagged and reset mappings in the bounds, all data',
  'Tests map with one tag once.', [F], [('Form._map(tags)', F), ('Form._reset', F)],
  'Histories of mappings with symbolic tags, resets and data against a model.')
p('C21', 'Fields read before they are mapped are mapped on demand',
  'A hook that reads another field of its form, or of a form around it, gets the value that field maps to, wherever '
  'the two are declared; outside of a mapping, reading an unmapped field maps it from no data. The outcome is that of '
  'mapping in declaration order: values, and where errors are.',
  ['programs', 'inputs'], 'all orders of declaration and dependencies in the bounds, all data',
  'Tests read one field in one order.',
  [F, C], [('Field.__get__', F), ('Context.rewind', C)],
  'Forms with symbolic declaration order and dependencies; a nested hook reads outer fields.')
p('C22', 'Form transformations follow the declared fields',
  'munge, filter, flatten and copy of a form visit each field held exactly once, in order of declaration and into '
  'nested forms, and give new forms holding exactly what was asked for. The form itself is not changed, and has '
  'tells whether a field has a value.',
  ['inputs'], 'all forms with fields present or absent', 'Tests use full forms.',
  [F], [('Form.munge/filter/flatten/copy/has', F)], 'Symbolic values, presence and tags against a reference.')
p('C23', 'Keys resolve to the place in the data they name',
  'A key is found in native data as an item, an alias, an attribute or a dotted path through them, in that order, '
  'and as a call of it if it ends in "()"; ignored paths do not exist. A key that cannot be resolved is absent, '
  'never an exception.',
  ['inputs', 'configurations'], 'all keys and structures in the bounds', 'Tests resolve a few keys.',
  [S + 'default.py', S + '__init__.py'], [('DefaultPath.resolve', S + 'default.py'), ('Path.value', S + '__init__.py')],
  'Symbolic keys against an independent lookup.')
p('C24', 'A union of sources merges by its rules',
  'A form mapped from a union of sources gets each value from the first source that has it, and mappings and '
  'sequences as their rule says: the first, the last, or all combined, down to the merge depth. Errors and absence '
  'are as in the merged data.',
  ['inputs', 'configurations'], 'all data of two or three sources in the bounds, all merge rules',
  'Tests merge two literal documents per rule.', [S + 'union.py'], [('Mapping / Sequence / Join', S + 'union.py')],
  'The union of symbolic sources against mapping the data merged by a reference.')
p('C25', 'Mounted sources keep to their mount point',
  'A form mapped from mounted sources finds under each mount name exactly what the source mounted there gives alone, '
  'with errors located at the mount; names not mounted are absent. Sources do not affect each other.',
  ['inputs'], 'all data of mounted sources in the bounds', 'Tests mount two literal sources.',
  [S + 'mount.py'], [('MountPath', S + 'mount.py')],
  'Mounted symbolic data against each source alone.')
p('C26', 'Configuration text is read by section and option',
  'A form mapped from configuration text finds each section, option, indexed option and list item as written, then '
  'the defaults given; what is in neither is absent. Names of options are matched in any case, unless case is '
  'preserved. Values are converted to numbers and booleans as texts are elsewhere.',
  ['inputs', 'configurations'], 'all option values in the bounds', 'Tests read one file.',
  [S + 'configparser.py'], [('ConfigSource', S + 'configparser.py'), ('SectionMapping', S + 'configparser.py')],
  'Option values symbolic in a config parser model; against the table of conversions.')
p('C27', 'Mapping is repeatable and changes nothing else',
  'Mapping does not change the data, the source, the fields or the form class, and mapping the same data again, in '
  'the same form or a new one, from the same source or a new one, gives the same values and errors.',
  ['inputs', 'histories'], 'all data; histories of mappings of different data in between',
  'Tests map once.', [F, T, S + '__init__.py'], [('no mapping state on fields or sources', F)],
  'Two mappings of symbolic data with another in between are compared; data and fields are compared before and after.')
p('C28', 'No data make mapping fail other than by form errors',
  'Whatever native data are mapped, by fields of any type with any constraints, the outcome is values and reported '
  'field errors; nothing else is raised. Every value held passed its field.',
  ['inputs'], 'data of all kinds (null, scalars, containers) for every field type',
  'Tests give fields data of the right kind.', [F, S + 'default.py', S + '__init__.py'],
  [('Field._compute except', F), ('Source.error', S + '__init__.py')],
  'Every field type against every kind of symbolic value.')
p('C29', 'Fields are mapped in order of declaration',
  'Fields are mapped and reported in the order they are declared, an overriding field in the place of the one it '
  'overrides and inherited ones before those added. Subclassing or cloning never changes the base form, the original '
  'field or one another.',
  ['programs'], 'declaration orders and inheritance shapes in the bounds', 'Tests use one hierarchy.',
  [F], [('FormMeta', F), ('Field.attach', F), ('Field.clone', F)],
  'Symbolic class hierarchies and option sequences against a model.')
p('C30', 'Code fields load what the text names',
  'A text with line breaks is compiled as a module of its own, any other text is imported as the attribute it names '
  'in the module it names; a text that is neither, or fails to load, is an error of the field. Values that are not '
  'text pass unchanged.',
  ['inputs'], 'all texts in the bounds', 'Tests load two names.', [F],
  [('Code._parse', F), ('Code.import_match', F), ('Code.load', F)],
  'Symbolic texts with import and exec replaced by recorders; attribute lookup in a stand-in module.')
p('C31', 'Attributes of a form are its entries',
  'A form is a mapping of its fields. Reading, setting and deleting the attribute of a field is reading, setting and '
  'deleting its entry, whatever the history of such operations; deleting an absent one does nothing, and reading an '
  'absent one maps the field from no data: it keeps and gives the default, or raises. On the class the attribute is '
  'the field. Making a form of a mapping, keywords, a source, or a list or tuple of the values of its fields in order '
  'is mapping these, raising the errors there are.',
  ['histories', 'inputs'], 'all histories of operations up to the bound, all data a form is made of',
  'Tests construct forms of literal data and read a few attributes.', [F],
  [('Field.__get__/__set__/__delete__', F), ('Form.__init__, _seq_source, from_fields', F)],
  'Histories of operations with symbolic values against a plain dict; constructors against the reference mapper.')
p('C32', 'The same data mean the same from any source',
  'A form maps to the same values and reports the same errors at the same places whether its data are native, JSON, '
  'mounted, or in a union in which nothing else has a value, or in combinations of these, but for the typing rules of '
  'JSON and the mount in front of locations. This holds for every composition of lists, tuples, dicts and nested '
  'forms, and for values that are absent, null or of a wrong kind at any level.',
  ['inputs', 'configurations'], 'all compositions of containers, sources and data in the bounds',
  'Tests map one document per source.', [S + 'default.py', S + 'json.py', S + 'union.py', S + 'mount.py', F],
  [('Path.exists/is_null/value of each source', S), ('List/Tuple/Dict/SubForm._parse', F)],
  'Data with one symbolic odd place through each source against the reference mapper.')
p('C33', 'An option means the same however it is given',
  'Limits, ranges, lengths, formats, defaults, nulls, values to ignore or translate, tags, keys and sub-fields mean '
  'the same whether given as arguments, by calls (which give the field itself) or options(), in any order, before or '
  'after the field is part of a form. An option given again replaces the one before, but values to ignore or '
  'translate and tags add up. A table of translations or tags given may be changed later without effect, and no other field is affected.',
  ['configurations', 'inputs'], 'all ways, orders and values of options in the bounds, all data',
  'Tests declare a field in one way each.', [F],
  [('Field.options/ignore/translate/tag', F), ('constructors of the fields', F), ('min/max/range/after/before/between', F)],
  'Fields declared in each way, with symbolic options and data, against the reference mapper.')

TRUST = (' Trusts: the AST instrumentation and the models of Python builtins in sx/ (sampled paths are re-run natively '
         'each time and must agree), z3 (and cvc5 in thorough), PyPy. Holds within the bounds the evidence states.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fo:
        for x in P:
            assert len(x['title']) <= 80, x['id']
            fo.write(json.dumps(dict(
                id=x['id'], title=x['title'], statement=x['statement'],
                quantifier=dict(over=x['over'], text=x['text']), why_tests_cant=x['why'],
                anchors=dict(files=x['files'], mechanism=[dict(name=n, where=w) for n, w in x['mechanism']]))) + '\n')
    checks, na = [], []
    for x in P:
        if x['na'] or not os.path.exists(os.path.join(HERE, 'props', x['id'].lower() + '.py')):
            na.append(dict(property=x['id'], reason=x['na'] or 'check not built yet'))
            continue
        checks.append(dict(
            property=x['id'], quick_cmd='./check.sh %s' % x['id'], thorough_cmd='./check.sh %s --thorough' % x['id'],
            technique='symbolic execution of the real source, obligations decided by SMT (z3, cvc5)',
            level='model_checking', level_note=x['note'] + TRUST))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
             notes='No hooks in /repo. See DESIGN.md; repaired and known defects: known_findings.txt.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fo:
        json.dump(m, fo, indent=1)
        fo.write('\n')


main()
