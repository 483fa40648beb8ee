"""C26: repetitions of an object carry given values or the object's own."""
from spec import *
import xml.etree.ElementTree as ET
from pyodrx.signals_objects import Object

REQUIRED = ['sStart', 'tStart', 'tEnd', 'zOffsetStart', 'zOffsetEnd']
OWN_HEIGHT = ['heightStart', 'heightEnd']
OPTIONAL = ['widthStart', 'widthEnd', 'lengthStart', 'lengthEnd', 'radiusStart', 'radiusEnd']


def obj(k, height):
    return Object(any_real('s', k), any_real('t', k), id=any_int('id', k), zOffset=any_real('zOffset', k), height=height)


def base(k, i, height):
    """attributes when nothing is given"""
    a = {'length': str(any_real('length', i)), 'distance': str(any_real('distance', i)), 's': str(any_real('s', k)), 'tStart': str(any_real('t', k)), 'tEnd': str(any_real('t', k)),
         'zOffsetStart': str(any_real('zOffset', k)), 'zOffsetEnd': str(any_real('zOffset', k))}
    if height is not None:
        a['heightStart'] = str(height)
        a['heightEnd'] = str(height)
    return a


def repeats(o):
    return [c for c in o.get_element() if c.tag == 'repeat']


def check(o, wants):
    got = repeats(o)
    ensures_same('number of repetitions', len(got), len(wants))
    requires(len(got) == len(wants))
    for i in range(len(wants)):
        ensures_tree('repetition', got[i], ET.Element('repeat', attrib=wants[i]))


def value(n):
    return any_none_or('no_' + n, any_real(n))


def contract_position_values():
    height = any_none_or('no_height', any_real('height'))
    o = obj(0, height)
    s, t1, t2 = value('sStart'), value('tStart'), value('tEnd')
    o.repeat(any_real('length', 0), any_real('distance', 0), sStart=s, tStart=t1, tEnd=t2)
    a = base(0, 0, height)
    if s is not None:
        a['s'] = str(s)
    if t1 is not None:
        a['tStart'] = str(t1)
    if t2 is not None:
        a['tEnd'] = str(t2)
    check(o, [a])


def contract_height_values():
    height = any_none_or('no_height', any_real('height'))
    o = obj(0, height)
    h1, h2, z1, z2 = value('heightStart'), value('heightEnd'), value('zOffsetStart'), value('zOffsetEnd')
    o.repeat(any_real('length', 0), any_real('distance', 0), heightStart=h1, heightEnd=h2, zOffsetStart=z1, zOffsetEnd=z2)
    a = base(0, 0, height)
    if h1 is not None:
        a['heightStart'] = str(h1)
    if h2 is not None:
        a['heightEnd'] = str(h2)
    if z1 is not None:
        a['zOffsetStart'] = str(z1)
    if z2 is not None:
        a['zOffsetEnd'] = str(z2)
    check(o, [a])


def contract_size_values():
    o = obj(0, None)
    w1, w2, l1, l2, r1, r2 = value('widthStart'), value('widthEnd'), value('lengthStart'), value('lengthEnd'), value('radiusStart'), value('radiusEnd')
    o.repeat(any_real('length', 0), any_real('distance', 0), widthStart=w1, widthEnd=w2, lengthStart=l1, lengthEnd=l2, radiusStart=r1, radiusEnd=r2)
    a = base(0, 0, None)
    for k, v in (('widthStart', w1), ('widthEnd', w2), ('lengthStart', l1), ('lengthEnd', l2), ('radiusStart', r1), ('radiusEnd', r2)):
        if v is not None:
            a[k] = str(v)
    check(o, [a])


def contract_all_given():
    o = obj(0, any_real('height'))
    vs = [any_real('v', k) for k in range(13)]
    o.repeat(any_real('length', 0), any_real('distance', 0), *vs)
    names = ['s', 'tStart', 'tEnd', 'heightStart', 'heightEnd', 'zOffsetStart', 'zOffsetEnd', 'widthStart', 'widthEnd', 'lengthStart', 'lengthEnd', 'radiusStart', 'radiusEnd']
    a = {'length': str(any_real('length', 0)), 'distance': str(any_real('distance', 0))}
    for k in range(13):
        a[names[k]] = str(vs[k])
    check(o, [a])


def contract_repetitions_in_order():
    """any number of repetitions; values of the object at the time of the call"""
    n = any_size('n')
    o = obj(0, None)
    want = ET.Element('want')
    for i in range(n):
        o.s = any_real('new_s', i)
        o.t = any_real('new_t', i)
        o.repeat(any_real('length', i), any_real('distance', i), zOffsetStart=any_real('z1', i), zOffsetEnd=0)
        ET.SubElement(want, 'repeat', attrib={'length': str(any_real('length', i)), 'distance': str(any_real('distance', i)), 's': str(any_real('new_s', i)), 'tStart': str(any_real('new_t', i)), 'tEnd': str(any_real('new_t', i)),
                                              'zOffsetStart': str(any_real('z1', i)), 'zOffsetEnd': '0'})
    got = repeats(o)
    ws = list(want)
    ensures_same('number of repetitions', len(got), n)
    requires(len(got) == n)
    forall(n, lambda i: ensures_tree('repetition', got[i], ws[i]))


def contract_objects_are_separate():
    a, b = obj(0, None), obj(1, None)
    a.repeat(any_real('length', 0), any_real('distance', 0))
    b.repeat(any_real('length', 1), any_real('distance', 1), heightStart=0, heightEnd=any_real('h2'))
    a.repeat(any_real('length', 2), any_real('distance', 2), radiusStart=0)
    wb = base(1, 1, None)
    wb['heightStart'] = '0'
    wb['heightEnd'] = str(any_real('h2'))
    wa = base(0, 2, None)
    wa['radiusStart'] = '0'
    check(a, [base(0, 0, None), wa])
    check(b, [wb])
