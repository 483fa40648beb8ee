"""C18: a road has at most one successor, one predecessor and two neighbors."""
from spec import *
import xml.etree.ElementTree as ET
from pyodrx.enumerations import ElementType, ContactPoint, Direction
from pyodrx.lane import Lanes
from contracts.lanes import line_road, make_section, name_of


def call(road, k):
    """call number k; returns whether it raised ValueError"""
    t, i, cp = any_enum(ElementType, 'type', k), any_int('id', k), any_none_or('no_cp', any_enum(ContactPoint, 'cp', k), k)
    kind = any_case('call', 3, k)
    try:
        if kind == 0:
            road.add_successor(t, i, cp, any_int('offset', k))
        elif kind == 1:
            road.add_predecessor(t, i, cp, any_int('offset', k))
        else:
            road.add_neighbor(t, i, any_none_or('no_direction', any_enum(Direction, 'direction', k), k))
    except ValueError:
        return True
    return False


def link(k):
    a = {'elementType': any_enum(ElementType, 'type', k).name, 'elementId': str(any_int('id', k))}
    kind = any_case('call', 3, k)
    if kind == 2:
        a['direction'] = any_enum(Direction, 'direction', k).name
        return ET.Element('neighbor', attrib=a)
    if any_none_or('no_cp', 1, k) is not None:
        a['contactPoint'] = any_enum(ContactPoint, 'cp', k).name
    return ET.Element('successor' if kind == 0 else 'predecessor', attrib=a)


def road():
    lanes = Lanes()
    lanes.add_lanesection(make_section(1, 1))
    return line_road(any_int('road'), lanes)


def history(n):
    r = road()
    want = ET.Element('link')
    count = [0, 0, 0]
    offsets = [0, 0]
    for k in range(n):
        kind = any_case('call', 3, k)
        raised = call(r, k)
        # a neighbor without direction is refused (C17) and does not count
        full = count[kind] >= (2 if kind == 2 else 1)
        refused = full or (kind == 2 and any_none_or('no_direction', 1, k) is None)
        ensures('raises ValueError exactly when there is one already', raised == refused)
        if not refused:
            count[kind] += 1
            want.append(link(k))
            if kind < 2:
                offsets[kind] = any_int('offset', k)
        ensures_same('lane offset of the successor', r.lane_offset_suc, offsets[0])
        ensures_same('lane offset of the predecessor', r.lane_offset_pred, offsets[1])
    ensures_tree('links of the road', r.links.get_element(), want)
    e = [c for c in r.get_element() if c.tag == 'link']
    ensures_same('one link element', len(e), 1)
    ensures_tree('link element of the road', e[0], want)


def contract_three_calls():
    history(4 if not SYMBOLIC else 3)


def links_of(r):
    """attribute values of the links, to compare before and after"""
    return [(l.tag, l.get('elementType'), l.get('elementId'), l.get('contactPoint'), l.get('direction')) for l in r.links.get_element()]


def full_road(order):
    """a road with both ends and both neighbors, added in the given order, and its links"""
    r = road()
    want = ET.Element('link')
    for k in order:
        if k == 0:
            r.add_successor(any_enum(ElementType, 'type', k), any_int('id', k), any_enum(ContactPoint, 'cp', k), any_int('offset', k))
        elif k == 1:
            r.add_predecessor(any_enum(ElementType, 'type', k), any_int('id', k), any_enum(ContactPoint, 'cp', k), any_int('offset', k))
        else:
            r.add_neighbor(any_enum(ElementType, 'type', k), any_int('id', k), any_enum(Direction, 'direction', k))
        a = {'elementType': any_enum(ElementType, 'type', k).name, 'elementId': str(any_int('id', k))}
        if k < 2:
            a['contactPoint'] = any_enum(ContactPoint, 'cp', k).name
        else:
            a['direction'] = any_enum(Direction, 'direction', k).name
        ET.SubElement(want, ['successor', 'predecessor', 'neighbor', 'neighbor'][k], attrib=a)
    return r, want


ORDERS = [[0, 1, 2, 3], [2, 1, 3, 0], [1, 2, 3, 0], [3, 0, 2, 1]]


def attempt(r, kind, k):
    """one more call of the given kind; whether it raised ValueError"""
    try:
        if kind == 0:
            r.add_successor(any_enum(ElementType, 'more_type', k), any_int('more_id', k), any_enum(ContactPoint, 'more_cp', k), any_int('more_offset', k))
        elif kind == 1:
            r.add_predecessor(any_enum(ElementType, 'more_type', k), any_int('more_id', k), any_enum(ContactPoint, 'more_cp', k), any_int('more_offset', k))
        else:
            r.add_neighbor(any_enum(ElementType, 'more_type', k), any_int('more_id', k), any_enum(Direction, 'more_direction', k))
    except ValueError:
        return True
    return False


def contract_any_number_of_further_calls():
    """on a road that has all its links every further call is refused and changes nothing, any number of times"""
    r, want = full_road(ORDERS[any_case('order', 4)])
    n = any_size('n')
    for i in range(n):
        ensures('refused', attempt(r, any_case('more', 3, i), i))
    ensures_same('lane offset of the successor', r.lane_offset_suc, any_int('offset', 0))
    ensures_same('lane offset of the predecessor', r.lane_offset_pred, any_int('offset', 1))
    ensures_tree('links', r.links.get_element(), want)


def contract_refused_with_bad_arguments():
    """a refused successor keeps the first one, also when the second names another element or no contact point"""
    r = road()
    r.add_successor(ElementType.junction, any_int('id', 0))
    r.add_predecessor(ElementType.road, any_int('id', 1), ContactPoint.end, any_int('offset', 1))
    suc = False
    try:
        r.add_successor(ElementType.junction, any_int('id', 2))
    except ValueError:
        suc = True
    ensures('second successor refused', suc)
    pred = False
    try:
        r.add_predecessor(any_enum(ElementType, 'type', 3), any_int('id', 3))
    except ValueError:
        pred = True
    ensures('second predecessor refused', pred)
    want = ET.Element('link')
    ET.SubElement(want, 'successor', attrib={'elementType': 'junction', 'elementId': str(any_int('id', 0))})
    ET.SubElement(want, 'predecessor', attrib={'elementType': 'road', 'elementId': str(any_int('id', 1)), 'contactPoint': 'end'})
    ensures_tree('links', r.links.get_element(), want)
    ensures_same('successor offset', r.lane_offset_suc, 0)
    ensures_same('predecessor offset', r.lane_offset_pred, any_int('offset', 1))
