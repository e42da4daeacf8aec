"""C05: only JSON text is written, only JSON text is read, and files are UTF-8."""
import math
from jschon import JSON
from jschon.utils import json_dumpf, json_dumps, json_loadf, json_loads, json_loadr
from sa import *
from spec_json import jequal

DOC = ('NoneType', 'bool', 'int', 'float', 'str', 'list', 'dict')


def noevents(at):
    for e in events('json-nonfinite'):
        check(False, 'writes-nonfinite', 'a number outside JSON is written', e[2])
    for e in events('json-skipkeys'):
        check(False, 'drops-members', 'members are left out of the text', at)
    for e in events('json-constant'):
        pass


def finite(v):
    """no NaN or infinity anywhere in the value"""
    if isinstance(v, float):
        return math.isfinite(v)
    if isinstance(v, list):
        return all(finite(x) for x in v)
    if isinstance(v, dict):
        return all(finite(x) for x in v.values())
    return True


def strict(at):
    for e in events('json-not-strict'):
        check(False, 'reads-control', 'text with unescaped control characters is accepted', at)


def s_dumps():
    v = sym('v', *DOC, depth=2, maxlen=1, elem_types=DOC)
    how = choose('method', 'function', 'str', 'function-json')
    ok = finite(v)
    try:
        if how == 'method':
            t = JSON(v).dumps()
        elif how == 'str':
            t = str(JSON(v))
        elif how == 'function':
            t = json_dumps(v)
        else:
            t = json_dumps([JSON(v)])
    except ValueError:
        check(not ok, 'refuses-json', 'a JSON value is not serialized', json_dumps, v)
        return
    check(ok, 'writes-nonfinite', 'a number outside JSON is written', json_dumps, v)
    noevents(json_dumps)
    back = json_loads(t)
    strict(json_loads)
    if how == 'function-json':
        back = back[0]
    check(jequal(back, v), 'round-trip', 'text does not denote the document', json_dumps, v, back)


def s_loads():
    t = string('text')
    how = choose('method', 'function')
    try:
        if how == 'method':
            r = JSON.loads(t)
        else:
            r = json_loads(t)
    except ValueError:
        return
    for e in events('json-constant'):
        check(False, 'reads-constant', 'text with %s is accepted' % e[1], json_loads)
    check(True, 'reads', '')


def s_files():
    v = sym('v', *DOC, depth=1, maxlen=1, elem_types=DOC)
    ok = finite(v)
    how = choose('method', 'function')
    path = string('path')
    try:
        if how == 'method':
            JSON(v).dumpf(path)
        else:
            json_dumpf(v, path)
    except ValueError:
        check(not ok, 'refuses-json', 'a JSON value is not serialized', json_dumpf, v)
        return
    check(ok, 'writes-nonfinite', 'a number outside JSON is written', json_dumpf, v)
    noevents(json_dumpf)
    closed(json_dumpf)
    clear_events()
    if how == 'method':
        back = JSON.loadf(path).value
    else:
        back = json_loadf(path)
    closed(json_loadf)
    strict(json_loadf)
    check(jequal(back, v), 'round-trip', 'the file does not denote the document', json_loadf, v, back)


def closed(at):
    for e in events('write-locale'):
        check(False, 'encoding', 'a file is not written in UTF-8', at, e[1])
    for e in events('read-locale'):
        check(False, 'encoding', 'a file is read in the encoding of the locale', at, e[1])
    for e in events('lenient'):
        check(False, 'encoding', 'what is not UTF-8 text is read or written as something else', at, e[1])
    for e in events('kept-content'):
        check(False, 'overwrite', 'what the file held before stays in it', at, e[1])
    check(len(events('open')) > 0, 'open', 'no file is opened', at)
    check(len(events('open')) <= len(events('close')), 'close', 'a file is left open', at)


def s_read_file():
    how = choose('method', 'function')
    if flag('there'):
        fs_hook(lambda path: string('text of the file'))
    try:
        if how == 'method':
            JSON.loadf('/data/x.json')
        else:
            json_loadf('/data/x.json')
    except ValueError:
        closed(json_loadf)
        return
    except OSError:
        return
    for e in events('json-constant'):
        check(False, 'reads-constant', 'a file with %s is accepted' % e[1], json_loadf)
    strict(json_loadf)
    closed(json_loadf)


def s_remote():
    url = string('url')
    how = choose('method', 'function')
    try:
        if how == 'method':
            JSON.loadr(url)
        else:
            json_loadr(url)
    except (ValueError, OSError):
        pass
    else:
        for e in events('json-constant'):
            check(False, 'reads-constant', 'a response with %s is accepted' % e[1], json_loadr)
        strict(json_loadr)
        check(len(events('http-get')) == 1, 'one-request', 'not exactly one request is made', json_loadr)
        check(decided_equal(events('http-get')[0][1], url), 'url', 'another URL is requested', json_loadr)
    for e in events('read-guess'):
        check(False, 'encoding', 'a response is decoded by guesswork', json_loadr, e[1])
    for e in events('http-error-body-used'):
        check(False, 'error-body', 'the body of an error response is used', json_loadr)
