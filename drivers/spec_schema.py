"""Reference semantics of JSON Schema evaluation (2019-09, 2020-12), written from
the specification: verdict, annotations and failing locations of a schema given as a
plain value, on an instance given as a plain value.

Locations are tuples of keys.  `ev` returns (valid, annotations, errors) where
annotations is a list of (keyword location, instance location, value) that survive,
and errors a list of (keyword location, instance location) that may be reported."""
import re
from sa import *
from jschon import JSON, URI
from schemas import *
from spec_json import *

NAMES = ('properties', 'patternProperties', 'additionalProperties', 'unevaluatedProperties')
ALL = ('null', 'boolean', 'number', 'string', 'array', 'object')
FOR = {
    'dependentSchemas': 'object', 'properties': 'object', 'patternProperties': 'object', 'additionalProperties': 'object',
    'unevaluatedProperties': 'object', 'propertyNames': 'object', 'required': 'object', 'dependentRequired': 'object',
    'maxProperties': 'object', 'minProperties': 'object',
    'prefixItems': 'array', 'items': 'array', 'additionalItems': 'array', 'unevaluatedItems': 'array', 'contains': 'array',
    'maxContains': 'array', 'minContains': 'array', 'maxItems': 'array', 'minItems': 'array', 'uniqueItems': 'array',
    'maxLength': 'string', 'minLength': 'string', 'pattern': 'string',
    'contentMediaType': 'string', 'contentEncoding': 'string', 'contentSchema': 'string',
    'multipleOf': 'number', 'maximum': 'number', 'minimum': 'number', 'exclusiveMaximum': 'number', 'exclusiveMinimum': 'number',
}
STATIC = ('$id', '$schema', '$anchor', '$dynamicAnchor', '$recursiveAnchor', '$defs', '$comment', '$vocabulary')
LAST = ('unevaluatedItems', 'unevaluatedProperties')


def kind(x):
    if x is None:
        return 'null'
    if isinstance(x, bool):
        return 'boolean'
    if isinstance(x, str):
        return 'string'
    if isinstance(x, (int, float)):
        return 'number'
    if isinstance(x, (list, tuple)):
        return 'array'
    return 'object'


def escape(key):
    return str(key).replace('~', '~0').replace('/', '~1')


def text(loc):
    out = ''
    for k in loc:
        out = out + '/' + escape(k)
    return out


class Env:
    """dialect, and the plain schemas references lead to"""

    def __init__(self, v, refs=None):
        self.v = v
        self.refs = refs or {}


def ev(env, s, inst, kl=(), il=()):
    if s is True:
        return True, [], []
    if s is False:
        return False, [], [(kl, il)]
    valid, anns, errs = True, [], []
    t = kind(inst)
    order = [k for k in s if k not in LAST] + [k for k in s if k in LAST]
    for key in order:
        if key in STATIC or key in ('minContains', 'maxContains') and 'contains' not in s or FOR.get(key, t) != t:
            continue
        ok, value, sub, e = keyword(env, s, key, inst, kl + (key,), il, anns)
        errs = errs + e
        if key in LAST and not valid:
            # what a failed keyword next to it had evaluated may be regarded as unevaluated
            errs = errs + [(kl + (key,), il)] + keyword(env, s, key, inst, kl + (key,), il, [])[3]
        if ok:
            if value is not None:
                anns = anns + [(kl + (key,), il, value)]
            anns = anns + sub
        else:
            valid = False
    if not valid:
        return False, [], errs
    return True, anns, [x for x in errs if 'if' in x[0]]


def many(env, what, kl, il):
    """apply (index or name, schema, instance, keyword location, instance location) each -> passed ids, failed ids, annotations of those that passed, errors"""
    good, bad, anns, errs = [], [], [], []
    for i, s, x, k, l in what:
        ok, a, e = ev(env, s, x, k, l)
        errs = errs + e
        if ok:
            good = good + [i]
            anns = anns + a
        else:
            bad = bad + [i]
    return good, bad, anns, errs


def result(ok, value, anns, errs, kl, il):
    if ok:
        return True, value, anns, []
    return False, None, [], errs + [(kl, il)]


def keyword(env, s, key, inst, kl, il, sofar):
    x = s[key]
    v = env.v
    if key == 'x-v':
        return result(verdict(x, text(il)), x, [], [], kl, il)
    if key in ('allOf', 'anyOf', 'oneOf'):
        good, bad, anns, errs = many(env, [(i, x[i], inst, kl + (i,), il) for i in range(len(x))], kl, il)
        ok = (not bad) if key == 'allOf' else bool(good) if key == 'anyOf' else len(good) == 1
        return result(ok, None, anns, errs, kl, il)
    if key == 'not':
        ok, a, e = ev(env, x, inst, kl, il)
        if ok:
            return False, None, [], e + [(kl, il)]
        return True, None, [], []
    if key == 'if':
        ok, a, e = ev(env, x, inst, kl, il)
        if ok:
            return True, None, a, []
        return True, None, [], e + [(kl, il)]
    if key in ('then', 'else'):
        if 'if' not in s:
            return True, None, [], []
        ok, a, e = ev(env, s['if'], inst, kl, il)
        if ok != (key == 'then'):
            return True, None, [], []
        ok, a, e = ev(env, x, inst, kl, il)
        return result(ok, None, a, e, kl, il)
    if key == 'dependentSchemas':
        good, bad, anns, errs = many(env, [(n, x[n], inst, kl + (n,), il) for n in x if n in inst], kl, il)
        return result(not bad, None, anns, errs, kl, il)
    if key in ('$ref', '$dynamicRef', '$recursiveRef'):
        ok, a, e = ev(env, env.refs[x], inst, kl, il)
        return result(ok, None, a, e, kl, il)
    if key == 'prefixItems' or key == 'items' and v == '2019-09' and isinstance(x, list):
        n = min(len(x), len(inst))
        good, bad, anns, errs = many(env, [(i, x[i], inst[i], kl + (i,), il + (i,)) for i in range(n)], kl, il)
        value = None if n == 0 else True if n == len(inst) and key == 'prefixItems' else n - 1
        return result(not bad, value, anns, errs, kl, il)
    if key == 'items':
        start = len(s['prefixItems']) if v != '2019-09' and 'prefixItems' in s else 0
        good, bad, anns, errs = many(env, [(i, x, inst[i], kl, il + (i,)) for i in range(start, len(inst))], kl, il)
        return result(not bad, True if good else None, anns, errs, kl, il)
    if key == 'additionalItems':
        if not isinstance(s.get('items'), list):
            return True, None, [], []
        good, bad, anns, errs = many(env, [(i, x, inst[i], kl, il + (i,)) for i in range(len(s['items']), len(inst))], kl, il)
        return result(not bad, True if good else None, anns, errs, kl, il)
    if key == 'contains':
        good, bad, anns, errs = many(env, [(i, x, inst[i], kl, il + (i,)) for i in range(len(inst))], kl, il)
        ok = bool(good) or 'minContains' in s and v is not None and s['minContains'] == 0
        return result(ok, good, anns, errs, kl, il)
    if key in ('minContains', 'maxContains'):
        good, bad, anns, errs = many(env, [(i, s['contains'], inst[i], kl, il + (i,)) for i in range(len(inst))], kl, il)
        ok = len(good) >= x if key == 'minContains' else len(good) <= x
        return result(ok, None, [], [], kl, il)
    if key == 'unevaluatedItems':
        done = evaluated_items(v, sofar, kl[:-1], il, len(inst))
        good, bad, anns, errs = many(env, [(i, x, inst[i], kl, il + (i,)) for i in range(len(inst)) if i not in done], kl, il)
        return result(not bad, True if good else None, anns, errs, kl, il)
    if key == 'properties':
        good, bad, anns, errs = many(env, [(n, x[n], inst[n], kl + (n,), il + (n,)) for n in inst if n in x], kl, il)
        return result(not bad, good, anns, errs, kl, il)
    if key == 'patternProperties':
        good, bad, anns, errs = many(env, [(n, x[r], inst[n], kl + (r,), il + (n,)) for n in inst for r in x if re.search(r, n)], kl, il)
        return result(not bad, good, anns, errs, kl, il)
    if key == 'additionalProperties':
        rest = [n for n in inst if n not in s.get('properties', {}) and not any(re.search(r, n) for r in s.get('patternProperties', {}))]
        good, bad, anns, errs = many(env, [(n, x, inst[n], kl, il + (n,)) for n in rest], kl, il)
        return result(not bad, good, anns, errs, kl, il)
    if key == 'unevaluatedProperties':
        done = []
        for k, l, value in sofar:
            if l == il and k[-1] in NAMES:
                done = done + list(value)
        good, bad, anns, errs = many(env, [(n, x, inst[n], kl, il + (n,)) for n in inst if n not in done], kl, il)
        return result(not bad, good, anns, errs, kl, il)
    if key == 'propertyNames':
        good, bad, anns, errs = many(env, [(n, x, n, kl, il + (n,)) for n in inst], kl, il)
        return result(not bad, None, [], errs, kl, il)
    if key == 'required':
        return result(all(n in inst for n in x), None, [], [], kl, il)
    if key == 'dependentRequired':
        return result(all(d in inst for n in x if n in inst for d in x[n]), None, [], [], kl, il)
    if key in ('maxItems', 'maxProperties', 'maxLength'):
        return result(len(inst) <= x, None, [], [], kl, il)
    if key in ('minItems', 'minProperties', 'minLength'):
        return result(len(inst) >= x, None, [], [], kl, il)
    if key == 'maximum':
        return result(inst <= x, None, [], [], kl, il)
    if key == 'minimum':
        return result(inst >= x, None, [], [], kl, il)
    if key == 'exclusiveMaximum':
        return result(inst < x, None, [], [], kl, il)
    if key == 'exclusiveMinimum':
        return result(inst > x, None, [], [], kl, il)
    if key == 'const':
        return result(jequal(inst, x), None, [], [], kl, il)
    if key == 'enum':
        return result(any(jequal(inst, e) for e in x), None, [], [], kl, il)
    if key == 'type':
        return result(of_type(inst, x), None, [], [], kl, il)
    if key == 'uniqueItems':
        ok = x is not True or not any(jequal(inst[i], inst[j]) for i in range(len(inst)) for j in range(i))
        return result(ok, None, [], [], kl, il)
    if key == 'pattern':
        return result(re.search(x, inst) is not None, None, [], [], kl, il)
    if key == 'contentSchema':
        return True, x if 'contentMediaType' in s else None, [], []
    return True, x, [], []


def of_type(inst, names):
    if isinstance(names, str):
        names = [names]
    t = kind(inst)
    return t in names or t == 'number' and 'integer' in names and is_int_valued(inst)


def evaluated_items(v, sofar, kl, il, n):
    """indices an unevaluatedItems keyword regards as evaluated"""
    done = []
    for k, l, value in sofar:
        if l != il:
            continue
        if k[-1] == 'prefixItems' or k[-1] == 'items' or k[-1] == 'additionalItems' or k[-1] == 'unevaluatedItems':
            if value is True:
                return list(range(n))
            done = done + list(range(value + 1))
        if k[-1] == 'contains' and v != '2019-09':
            done = done + value
    return done


def agree(env, sval, inst, res, at, names=None):
    """the evaluation result must have the verdict, the surviving annotations and only failing locations of the reference"""
    valid, anns, errs = ev(env, sval, inst)
    if not check(res.valid == valid, 'verdict', 'the verdict is %s where the specification says %s' % (res.valid, valid), at, sval, inst):
        return
    out = res.output('basic')
    check(out['valid'] == valid, 'output-verdict', 'the output does not report the verdict', at, out)
    if valid:
        want = {}
        for k, l, value in anns:
            if 'propertyNames' not in k and not (k[-1] in NAMES + ('contains',) and len(value) == 0):
                want[text(k), text(l)] = value
        got = {}
        for a in out['annotations']:
            key = a['keywordLocation'].split('/')[-1]
            value = a['annotation']
            if 'propertyNames' in a['keywordLocation'] or key == 'dependentSchemas' or key in NAMES + ('contains',) and value is not True and len(value) == 0:
                continue
            got[a['keywordLocation'], a['instanceLocation']] = value
        for w in want:
            if check(w in got, 'annotation-missing', 'an annotation is missing', at, w, want[w]):
                check(same(w[0].split('/')[-1], got[w], want[w], inst), 'annotation', 'an annotation has the wrong value', at, w, got[w], want[w])
                check(plain_data(got[w]), 'annotation', 'an annotation is not plain JSON data', at, w)
        for g in got:
            check(g in want, 'annotation-extra', 'an annotation of something that did not pass, or was not applied', at, g, got[g])
    else:
        want = [(text(k), text(l)) for k, l in errs] + [('', '')]
        check(len(out['errors']) > 0, 'no-error', 'invalid without any error', at)
        for e in out['errors']:
            check((e['keywordLocation'], e['instanceLocation']) in want, 'error-location', 'an error is reported where nothing failed', at, e)


def plain_data(x):
    """JSON data all the way down: no nodes, tuples or sets"""
    if type(x) is dict:
        return all(isinstance(k, str) and plain_data(x[k]) for k in x)
    if type(x) is list:
        return all(plain_data(y) for y in x)
    return not isinstance(x, (JSON, dict, list, tuple, set))


def same(key, got, want, inst):
    if key in NAMES:
        return got is not True and all(n in want for n in got) and all(n in got for n in want)
    if key == 'contains':
        return got == want or got is True
    return type(got) is type(want) and got == want


def evaluate(v, sval, inst, at, refs=None):
    res = schema(v, sval).evaluate(JSON(inst))
    agree(Env(v, refs), sval, inst, res, at)


def kw(v, key):
    return DIALECTS.get_metaschema(URI(uri_of(v))).get_kwclass(key).evaluate


def dialect():
    return choose('2019-09', '2020-12', 'next')
