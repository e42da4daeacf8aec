"""Catalogs for the schema drivers: the three dialects, over permissive metaschema
documents, plus one keyword ('x-v') whose verdict on each instance is arbitrary."""
import json
from jschon import JSON, JSONSchema, URI, create_catalog
from jschon.catalog import Source
from jschon.vocabulary import Keyword
import jschon.output
from sa import *

ANCHOR = {'2019-09': '"$recursiveAnchor": true', '2020-12': '"$dynamicAnchor": "meta"', 'next': '"$dynamicAnchor": "meta"'}


def uri_of(v):
    return 'https://json-schema.org/draft/%s/schema' % v


def metaschema_files(path):
    for v in ('2019-09', '2020-12', 'next'):
        if v in str(path):
            return '{"$schema": "%s", "$id": "%s", %s}' % (uri_of(v), uri_of(v), ANCHOR[v])
    return None


class Verdict(Keyword):
    """{"x-v": label}: accepts or rejects each instance location, arbitrarily"""
    key = 'x-v'

    def evaluate(self, instance, result):
        if verdict(self.json.value, str(instance.path)):
            result.annotate(self.json.value)
        else:
            result.fail('x-v')


def verdict(label, where):
    return pred('verdict', label, where)


def catalog_for(*versions):
    fs_hook(metaschema_files)
    cat = create_catalog(*versions)
    for v in versions:
        cat.get_metaschema(URI(uri_of(v))).kwclasses['x-v'] = Verdict
    return cat


DIALECTS = catalog_for('2019-09', '2020-12', 'next')


def schema(v, value, **kw):
    return JSONSchema(value, catalog=DIALECTS, metaschema_uri=URI(uri_of(v)), **kw)


def V(label):
    return {'x-v': label}
