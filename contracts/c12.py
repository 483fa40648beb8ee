"""C12: connections of a junction have distinct ids."""
from spec import *
import xml.etree.ElementTree as ET
from pyodrx.enumerations import ContactPoint
from pyodrx.links import Junction, Connection


def connection(i):
    c = Connection(any_int('incoming', i), any_int('connecting', i), any_enum(ContactPoint, 'contact', i), any_none_or('no_id', any_int('id', i), i))
    c.add_lanelink(any_int('from', i), any_int('to', i))
    return c


def contract_history():
    """any sequence of connections with and without ids"""
    n = any_size('n', hi=4)
    junc = Junction('j', any_int('junction'))
    for i in range(n):
        c = connection(i)
        before = list(junc.get_element())
        given = c.id
        junc.add_connection(c)
        got = list(junc.get_element())[-1].get('id')
        if given is not None:
            ensures_same('given id kept', got, str(given))
        else:
            ensures('automatic id not used before', all([e.get('id') != got for e in before]))
    cs = list(junc.get_element())
    ensures_same('all connections emitted', len(cs), n)
    forall(n, lambda i: emitted(cs[i], i))


def emitted(e, i):
    ensures('connection', e.tag == 'connection')
    ensures_same('incoming road of a connection', e.get('incomingRoad'), str(any_int('incoming', i)))
    ensures_same('connecting road of a connection', e.get('connectingRoad'), str(any_int('connecting', i)))
    ensures_same('contact point of a connection', e.get('contactPoint'), any_enum(ContactPoint, 'contact', i).name)
    links = list(e)
    ensures_same('lane links', len(links), 1)
    ensures_same('from', links[0].get('from'), str(any_int('from', i)))
    ensures_same('to', links[0].get('to'), str(any_int('to', i)))


def contract_given_as_text():
    """numbers and texts as ids, which may be the same when written"""
    n = any_size('n', hi=4)
    junc = Junction('j', any_int('junction'))
    for i in range(n):
        given = any_case('given', 3, i)
        c = Connection(any_int('incoming', i), any_int('connecting', i), any_enum(ContactPoint, 'contact', i), None if given == 0 else any_int('id', i) if given == 1 else str(any_int('id', i)))
        before = list(junc.get_element())
        junc.add_connection(c)
        got = list(junc.get_element())[-1].get('id')
        if given > 0:
            ensures_same('given id kept', got, str(any_int('id', i)))
        else:
            ensures('automatic id not used before', all([e.get('id') != got for e in before]))


def contract_one_more():
    """one connection added to a junction that holds any connections with any ids"""
    n = any_size('n', hi=3)
    junc = Junction('j', any_int('junction'))
    for i in range(n):
        junc.add_connection(Connection(any_int('incoming', i), any_int('connecting', i), ContactPoint.start, any_int('id', i)))
    before = list(junc.get_element())
    junc.add_connection(Connection(1, 2, ContactPoint.end))
    got = list(junc.get_element())[-1].get('id')
    ensures('automatic id not used before', all([e.get('id') != got for e in before]))


def contract_lane_links_in_order():
    n, m = any_size('before', hi=2), any_size('after', hi=2)
    c = Connection(any_int('incoming'), any_int('connecting'), any_enum(ContactPoint, 'contact'), any_text('id'))
    junc = Junction(any_text('name'), any_int('junction'))
    want = ET.Element('connection', attrib={'incomingRoad': str(any_int('incoming')), 'id': any_text('id'), 'contactPoint': any_enum(ContactPoint, 'contact').name, 'connectingRoad': str(any_int('connecting'))})
    for i in range(n):
        c.add_lanelink(any_int('from', i), any_int('to', i))
        ET.SubElement(want, 'laneLink', attrib={'from': str(any_int('from', i)), 'to': str(any_int('to', i))})
    junc.add_connection(c)
    for i in range(m):
        c.add_lanelink(any_int('from2', i), any_int('to2', i))
        ET.SubElement(want, 'laneLink', attrib={'from': str(any_int('from2', i)), 'to': str(any_int('to2', i))})
    e = ET.Element('junction', attrib={'name': any_text('name'), 'id': str(any_int('junction'))})
    e.append(want)
    ensures_tree('junction', junc.get_element(), e)
