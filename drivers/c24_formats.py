"""C24: format asserts exactly where a catalog enables it, by exactly the registered
validator, and annotates in any case; the json-pointer format is RFC 6901."""
import re
from jschon import JSON, JSONPointer
from jschon.catalog import Catalog
from jschon.vocabulary.format import format_validator, FormatKeyword
import jschon.formats
from schemas import *
from spec_schema import *

FORMAT = 'jschon/vocabulary/format.py: FormatKeyword.evaluate'
INIT = 'jschon/vocabulary/format.py: FormatKeyword.__init__'
ENABLE = 'jschon/catalog/__init__.py: Catalog.enable_formats'
TYPES = ('null', 'boolean', 'number', 'string', 'array', 'object')
CALLS = []


def validator(label):
    def validate(value):
        CALLS.append((label, value))
        if not pred('verdict', label, show(value)):
            raise choose(ValueError, UnicodeError)('bad')
    return validate


def register(name, label=None, **kw):
    v = validator(label or name)
    check(format_validator(name, **kw)(v) is v, 'decorator', 'the decorator changes the function', format_validator)


def accepts(label, value):
    return pred('verdict', label, show(value))


def annotated(res, value, name):
    """format's annotation of a valid schema"""
    out = res.output('basic')
    got = [a for a in out['annotations'] if a['keywordLocation'] == '/format'] if 'annotations' in out else []
    check(len(got) == 1 and got[0]['annotation'] == name, 'annotated', 'format does not annotate', FORMAT, got)


INSTANCES = {'null': None, 'boolean': True, 'number': 5, 'string': 'x', 'array': ['x'], 'object': {'x': 'x'}}


def s_enabled():
    """an enabled format fails exactly for what its validator refuses"""
    v = dialect()
    register('f')
    DIALECTS.enable_formats('f')
    t = choose(*TYPES)
    x = string('t') if t == 'string' else INSTANCES[t]
    s = schema(v, {'format': 'f'})
    del CALLS[:]
    res = s.evaluate(JSON(x))
    want = t != 'string' or accepts('f', x)
    check(res.valid == want, 'verdict', 'format does not decide as its validator', FORMAT, t)
    check((len(CALLS) > 0) == (t == 'string'), 'called', 'the validator is called for another type, or not at all', FORMAT, t)
    if t == 'string':
        check(decided_equal(CALLS[0][1], x), 'called', 'the validator gets another value than the instance', FORMAT)
    if want:
        annotated(res, x, 'f')
    else:
        out = res.output('basic')
        check([e['keywordLocation'] for e in out['errors'] if e['keywordLocation'] != ''] == ['/format'], 'error', 'the error is not reported for format', FORMAT, out)


def s_broken_validator():
    """only a ValueError of a validator is a verdict"""
    e = choose(TypeError('t'), KeyError('k'), RuntimeError(), IndexError(1), ValueError('v'))
    def validate(value):
        raise e
    format_validator('f')(validate)
    DIALECTS.enable_formats('f')
    s = schema('2020-12', choose({'format': 'f'}, {'anyOf': [{'format': 'f'}, True]}))
    try:
        res = s.evaluate(JSON('x'))
        check(type(e) is ValueError, 'error', 'an error of a validator counts as a verdict', FORMAT, e)
    except Exception as got:
        check(got is e and type(e) is not ValueError, 'error', 'an error of a validator is replaced', FORMAT, got)


def s_letter_case():
    """names of formats are told apart by letter case"""
    register('f')
    DIALECTS.enable_formats('f')
    name = choose('F', 'f ', ' f', 'ff', '')
    s = schema(dialect(), {'format': name})
    del CALLS[:]
    res = s.evaluate(JSON('x'))
    check(res.valid and not CALLS, 'not-enabled', 'a format is asserted that is not enabled', FORMAT, name)
    annotated(res, 'x', name)


def s_types():
    """formats for other types than strings"""
    v = choose('2019-09', '2020-12')
    types = choose(('number',), ('array', 'object'), ('null', 'boolean'), ('string', 'number'), ())
    register('g', instance_types=types)
    DIALECTS.enable_formats('g')
    t = choose(*TYPES)
    x = INSTANCES[t]
    s = schema(v, {'format': 'g'})
    del CALLS[:]
    res = s.evaluate(JSON(x))
    check((len(CALLS) > 0) == (t in types), 'called', 'the validator is called for another type, or not at all', FORMAT, t, types)
    check(res.valid == (t not in types or accepts('g', JSON(x).data)), 'verdict', 'format does not decide as its validator', FORMAT, t)
    if t in types:
        check(CALLS[0][1] == JSON(x).data, 'called', 'the validator gets another value than the instance', FORMAT)


def s_not_enabled():
    """a format that is not enabled never fails, whatever is registered"""
    v = dialect()
    register('f')
    register('h')
    how = choose('nothing', 'other', 'several', 'other-catalog', 'unregistered')
    if how == 'other':
        DIALECTS.enable_formats('h')
    elif how == 'several':
        DIALECTS.enable_formats('h', 'json-pointer')
        DIALECTS.enable_formats()
    elif how == 'other-catalog':
        Catalog('mine').enable_formats('f')
    name = choose('unheard-of', 'F', '', 'format') if how == 'unregistered' else 'f'
    x = INSTANCES[choose(*TYPES)]
    s = schema(v, {'format': name})
    del CALLS[:]
    res = s.evaluate(JSON(x))
    check(res.valid, 'not-enabled', 'a format that is not enabled fails', INIT, how, name)
    check(len(CALLS) == 0, 'not-enabled', 'the validator of a format that is not enabled is called', INIT, how)
    annotated(res, x, name)
    check(not DIALECTS.is_format_enabled(name), 'not-enabled', 'a format is enabled that nobody enabled', ENABLE, name, how)


def s_enable():
    """formats stay enabled, for one catalog, all of them"""
    one, two = Catalog('one'), Catalog('two')
    names = choose(('a',), ('a', 'b'), ('json-pointer', 'a'), (), ('b a', 'a,b'), ('A',))
    one.enable_formats(*names)
    one.enable_formats('c')
    if flag('again'):
        one.enable_formats('c', 'c')
    two.enable_formats('d')
    for n in ('a', 'b', 'c', 'd', 'json-pointer', 'ab', 'ac', '', 'b a', 'a,b', 'A', 'C'):
        check(one.is_format_enabled(n) == (n in names or n == 'c'), 'enabled', 'other formats are enabled than those asked for', ENABLE, n)
        check(two.is_format_enabled(n) == (n == 'd'), 'enabled', 'formats are enabled in another catalog', ENABLE, n)
        check(not DIALECTS.is_format_enabled(n), 'enabled', 'formats are enabled in another catalog', ENABLE, n)


def s_many():
    """each format has its own validator; registering again replaces it"""
    v = choose('2019-09', '2020-12')
    register('f', 'f1')
    register('g', 'g1')
    again = flag('again')
    if again:
        register('f', 'f2')
    if flag('at once'):
        DIALECTS.enable_formats('f', 'g')
    else:
        DIALECTS.enable_formats('g')
        DIALECTS.enable_formats('f')
    s = schema(v, {'properties': {'p': {'format': 'f'}, 'q': {'format': 'g'}, 'r': {'format': 'unheard-of'}}})
    x = {'p': 'P', 'q': 'Q', 'r': 'R'}
    res = s.evaluate(JSON(x))
    check(res.valid == (accepts('f2' if again else 'f1', 'P') and accepts('g1', 'Q')), 'verdict', 'a format is decided by another validator than its own', INIT)


def s_combined():
    """a failing format is a failing keyword, whatever it is combined with"""
    v = dialect()
    register('f')
    DIALECTS.enable_formats('f')
    what = choose('not', 'anyOf', 'items', 'if', 'sibling', 'ref', 'contains', 'propertyNames')
    f = {'format': 'f'}
    a = accepts('f', 'a')
    b = accepts('f', 'b') if what in ('items', 'contains', 'propertyNames') else None
    sval = {'not': {'not': f}, 'anyOf': {'anyOf': [f, {'x-v': 's'}]}, 'items': {'items': f}, 'if': {'if': f, 'then': {'x-v': 's'}, 'else': {'x-v': 't'}}, 'sibling': {'x-v': 's', 'format': 'f', 'title': 't'},
            'ref': {'$defs': {'f': f}, '$ref': '#/$defs/f'}, 'contains': {'contains': f}, 'propertyNames': {'propertyNames': f}}[what]
    x = ['a', 'b'] if what in ('items', 'contains') else {'a': 1, 'b': 2} if what == 'propertyNames' else 'a'
    want = {'not': lambda: not a, 'anyOf': lambda: a or verdict('s', ''), 'items': lambda: a and b, 'if': lambda: verdict('s', '') if a else verdict('t', ''), 'sibling': lambda: a and verdict('s', ''),
            'ref': lambda: a, 'contains': lambda: a or b, 'propertyNames': lambda: a and b}[what]()
    check(schema(v, sval).evaluate(JSON(x)).valid == want, 'verdict', 'a failing format is not a failing keyword', FORMAT, what)


def s_repeated():
    """each evaluation asks the validator anew"""
    register('f')
    DIALECTS.enable_formats('f')
    s = schema(choose('2019-09', '2020-12'), {'items': {'format': 'f'}})
    for x in (['a', 'b'], ['b'], ['a', 'a']):
        check(s.evaluate(JSON(x)).valid == all(accepts('f', y) for y in x), 'verdict', 'format does not decide as its validator', FORMAT, x)


POINTER = '(?:/(?:[^~/]|~0|~1)*)*'


def s_json_pointer():
    """json-pointer: exactly the texts of RFC 6901"""
    DIALECTS.enable_formats('json-pointer')
    t = string('t')
    v = choose('2019-09', '2020-12')
    res = schema(v, {'format': 'json-pointer'}).evaluate(JSON(t))
    check(res.valid == (re.fullmatch(POINTER, t, re.DOTALL) is not None), 'json-pointer', 'the json-pointer format is not RFC 6901', 'jschon/formats.py: validate_json_pointer', t)


def s_json_pointer_types():
    DIALECTS.enable_formats('json-pointer')
    t = choose(*TYPES)
    res = schema(dialect(), {'format': 'json-pointer'}).evaluate(JSON(INSTANCES[t]))
    check(res.valid == (t != 'string'), 'json-pointer', 'the json-pointer format concerns strings only', 'jschon/formats.py: validate_json_pointer', t)
