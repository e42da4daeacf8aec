"""Observation of a document tree through the public interface."""
from jschon import JSON, JSONPointer
from sa import *
from spec_json import jtype, jequal


def pathkeys(p):
    return [k for k in p]


def prime(node):
    """read path and value of every node, so that later changes meet filled caches"""
    node.path
    node.value
    if node.type == 'array':
        for c in node.data:
            prime(c)
    elif node.type == 'object':
        for c in node.data.values():
            prime(c)


def links(node, parent, key, keys, at):
    """C02: parent, key and path of every node"""
    check(node.parent is parent, 'parent', 'a node does not refer to its container', at, keys)
    if parent is not None:
        if check(isinstance(node.key, str), 'key-str', 'a key is not a string', at, node.key):
            check(node.key == key, 'key', 'a node does not know its key', at, node.key, key)
    check(pathkeys(node.path) == keys, 'path', 'the path of a node is not its location', at, pathkeys(node.path), keys)
    if node.type == 'array':
        if check(type(node.data) is list, 'data', 'array data is not a list', at):
            i = 0
            for c in node.data:
                links(c, node, str(i), keys + [str(i)], at)
                i += 1
    elif node.type == 'object':
        if check(type(node.data) is dict, 'data', 'object data is not a dict', at):
            for k in node.data:
                links(node.data[k], node, k, keys + [k], at)


def values(node, ref, at):
    """C03: value of every node is its current content"""
    if not check(node.type == jtype(ref), 'type', 'a node has a stale type', at, node.type):
        return
    check(samevalue(node.value, ref), 'value', 'the value of a node is not its content', at, node.value, ref)
    if node.type == 'array':
        if check(len(node.data) == len(ref), 'content', 'wrong number of items', at):
            for i in range(len(ref)):
                values(node.data[i], ref[i], at)
    elif node.type == 'object':
        if check(len(node.data) == len(ref), 'content', 'wrong number of properties', at):
            for k in ref:
                if check(k in node.data, 'content', 'property missing', at, k):
                    values(node.data[k], ref[k], at)
    else:
        check(decided_equal(node.data, ref), 'content', 'wrong scalar', at, node.data, ref)


def samevalue(a, b):
    if type(b) is list:
        return type(a) is list and len(a) == len(b) and all(samevalue(x, y) for x, y in zip(a, b))
    if type(b) is dict:
        return type(a) is dict and len(a) == len(b) and all(k in a and samevalue(a[k], b[k]) for k in b)
    return decided_equal(a, b)
