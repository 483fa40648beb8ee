"""C08: lanes of consecutive roads are linked one to one."""
from spec import *
import xml.etree.ElementTree as ET
from pyodrx.enumerations import ElementType, ContactPoint
from pyodrx.exceptions import NotSameAmountOfLanesError
from pyodrx.lane import Lanes, Lane, LaneSection
from pyodrx.links import create_lane_links
from pyodrx.opendrive import OpenDrive, Road
from pyodrx.geometry import PlanView, Line
from contracts.lanes import make_section, line_road


def lanes_of(road, before, after, left, right):
    """sections with one lane a side, the meeting section somewhere between them"""
    lanes = Lanes()
    for i in range(before):
        lanes.add_lanesection(make_section(any_case('extra_left', 2, road, i), 1, road, 'before', i))
    lanes.add_lanesection(make_section(left, right, road, 'meeting'))
    for i in range(after):
        lanes.add_lanesection(make_section(1, any_case('extra_right', 2, road, i), road, 'after', i))
    return lanes


def section_element(left, right, kind, *i):
    """element of make_section(left, right, *i) whose lanes are linked to the same id"""
    e = ET.Element('laneSection', attrib={'s': str(any_real('sec_s', *i))})
    if left > 0:
        l = ET.SubElement(e, 'left')
        for j in range(left):
            l.append(lane(j + 1, any_real('left_a', *i, j), kind))
    ET.SubElement(e, 'center').append(lane(0, 0, None))
    if right > 0:
        l = ET.SubElement(e, 'right')
        for j in range(right):
            l.append(lane(-j - 1, any_real('right_a', *i, j), kind))
    return e


def lane(id, a, kind):
    e = ET.Element('lane', attrib={'id': str(id), 'type': 'driving', 'level': 'false'})
    l = ET.SubElement(e, 'link')
    if kind is not None:
        ET.SubElement(l, kind, attrib={'id': str(id)})
    ET.SubElement(e, 'width', attrib={'a': str(a), 'b': '0', 'c': '0', 'd': '0', 'sOffset': '0'})
    return e


def expected(road, before, after, left, right, kind):
    e = ET.Element('lanes')
    for i in range(before):
        e.append(section_element(any_case('extra_left', 2, road, i), 1, None, road, 'before', i))
    e.append(section_element(left, right, kind, road, 'meeting'))
    for i in range(after):
        e.append(section_element(1, any_case('extra_right', 2, road, i), None, road, 'after', i))
    return e


def two_roads(la, ra, lb, rb, na, nb):
    ida, idb = any_id('road', 0), any_id('road', 1)
    a = line_road(ida, lanes_of(0, na, 0, la, ra), -1, any_real('len', 0, gt=0))
    b = line_road(idb, lanes_of(1, 0, nb, lb, rb), -1, any_real('len', 1, gt=0))
    a.add_successor(ElementType.road, idb, ContactPoint.start)
    b.add_predecessor(ElementType.road, ida, ContactPoint.end)
    if any_bool('a_has_other_end'):
        a.add_predecessor(ElementType.junction, any_int('other'))
    return a, b


def link(a, b):
    how = any_case('how', 3)
    if how == 0:
        create_lane_links(a, b)
    elif how == 1:
        create_lane_links(b, a)
    else:
        od = OpenDrive('x')
        if any_bool('b_first'):
            od.add_road(b)
            od.add_road(a)
        else:
            od.add_road(a)
            od.add_road(b)
        od.adjust_roads_and_lanes()


def contract_linked_one_to_one():
    left, right = any_size('left', hi=2), any_size('right', hi=2)
    na, nb = any_size('sections_before', hi=1), any_size('sections_after', hi=1)
    a, b = two_roads(left, right, left, right, na, nb)
    link(a, b)
    ensures_tree('lanes of the predecessor', a.lanes.get_element(), expected(0, na, 0, left, right, 'successor'))
    ensures_tree('lanes of the successor', b.lanes.get_element(), expected(1, 0, nb, left, right, 'predecessor'))


def linked_lanes(road, left, right, kind):
    """one section whose lanes already have a link of the given kind, as the lanes of a road between two others do"""
    sec = make_section(left, right, road, 'meeting')
    for j in range(left):
        sec.leftlanes[j].add_link(kind, any_int('old_left', road, j))
    for j in range(right):
        sec.rightlanes[j].add_link(kind, any_int('old_right', road, j))
    lanes = Lanes()
    lanes.add_lanesection(sec)
    return lanes


def linked_element(road, left, right, old, kind):
    e = section_element(left, right, kind, road, 'meeting')
    for j in range(left):
        e.find('left').findall('lane')[j].find('link').insert(0, ET.Element(old, attrib={'id': str(any_int('old_left', road, j))}))
    for j in range(right):
        e.find('right').findall('lane')[j].find('link').insert(0, ET.Element(old, attrib={'id': str(any_int('old_right', road, j))}))
    w = ET.Element('lanes')
    w.append(e)
    return w


def contract_linked_to_others_before():
    left, right = any_size('left', hi=2), any_size('right', hi=2)
    ida, idb = any_id('road', 0), any_id('road', 1)
    a = line_road(ida, linked_lanes(0, left, right, 'predecessor'), -1, any_real('len', 0, gt=0))
    b = line_road(idb, linked_lanes(1, left, right, 'successor'), -1, any_real('len', 1, gt=0))
    a.add_successor(ElementType.road, idb, ContactPoint.start)
    b.add_predecessor(ElementType.road, ida, ContactPoint.end)
    link(a, b)
    ensures_tree('lanes of the predecessor', a.lanes.get_element(), linked_element(0, left, right, 'predecessor', 'successor'))
    ensures_tree('lanes of the successor', b.lanes.get_element(), linked_element(1, left, right, 'successor', 'predecessor'))


def contract_different_counts_are_rejected():
    la, ra, lb, rb = any_size('la', hi=2), any_size('ra', hi=2), any_size('lb', hi=2), any_size('rb', hi=2)
    requires(la != lb or ra != rb)
    a, b = two_roads(la, ra, lb, rb, any_size('sections_before', hi=1), any_size('sections_after', hi=1))
    raised = False
    try:
        link(a, b)
    except NotSameAmountOfLanesError:
        raised = True
    ensures('NotSameAmountOfLanesError', raised)


def some_links(r, k, has_suc, has_pred):
    """links of road k to anything; returns the ids of the roads named as successor and predecessor"""
    suc, pred = None, None
    if has_suc:
        t, i = any_enum(ElementType, 'suc_type', k), any_int('suc', k)
        r.add_successor(t, i, any_enum(ContactPoint, 'suc_cp', k))
        if t == ElementType.road:
            suc = i
    if has_pred:
        t, i = any_enum(ElementType, 'pred_type', k), any_int('pred', k)
        r.add_predecessor(t, i, any_enum(ContactPoint, 'pred_cp', k))
        if t == ElementType.road:
            pred = i
    return suc, pred


def others(a_suc, a_pred):
    ida, idb = any_id('road', 0), any_id('road', 1)
    la, ra, lb, rb = any_size('la', 1, 1), any_size('ra', 1, 1), any_size('lb', 1, 1), any_size('rb', 1, 1)
    a = line_road(ida, lanes_of(0, 0, 0, la, ra))
    b = line_road(idb, lanes_of(1, 0, 0, lb, rb))
    suca, preda = some_links(a, 0, a_suc, a_pred)
    sucb, predb = some_links(b, 1, any_bool('b_suc'), any_bool('b_pred'))
    requires(not (suca == idb and predb == ida))
    requires(not (sucb == ida and preda == idb))
    create_lane_links(a, b)
    ensures_tree('lanes of a road', a.lanes.get_element(), expected(0, 0, 0, la, ra, None))
    ensures_tree('lanes of the other road', b.lanes.get_element(), expected(1, 0, 0, lb, rb, None))


def contract_others_get_no_links_suc():
    others(True, False)


def contract_others_get_no_links_pred():
    others(False, True)


def contract_others_get_no_links_both():
    others(True, True)


def contract_others_get_no_links_none():
    others(False, False)


PERMUTATIONS = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]


def links_of(lane, kind):
    return [e.get('id') for e in lane.find('link') if e.tag == kind]


def contract_chain_of_roads():
    """three roads in a row or in a ring (in the run-time evaluation any number), added in any order"""
    n = 3 if SYMBOLIC else any_size('n', 3, 5)
    left, right = any_size('left', hi=2), any_size('right', hi=2)
    ring = any_bool('ring')
    roads = []
    for k in range(n):
        lanes = Lanes()
        lanes.add_lanesection(make_section(left, right, k))
        r = line_road(any_id('road', k), lanes, -1, any_real('len', k, gt=0))
        roads.append(r)
    for k in range(n):
        if k + 1 < n or ring:
            roads[k].add_successor(ElementType.road, any_id('road', (k + 1) % n), ContactPoint.start)
            roads[(k + 1) % n].add_predecessor(ElementType.road, any_id('road', k), ContactPoint.end)
    od = OpenDrive('x')
    order = PERMUTATIONS[any_case('order', 6)]
    for k in order:
        od.add_road(roads[k])
    for k in range(3, n):
        od.add_road(roads[k])
    od.adjust_roads_and_lanes()
    for k in range(n):
        e = list(roads[k].lanes.get_element())[0]
        for side, count, s in (('left', left, 1), ('right', right, -1)):
            if count > 0:
                lanes = e.find(side).findall('lane')
                ensures_same('number of lanes', len(lanes), count)
                requires(len(lanes) == count)

                def one(j):
                    suc, pred = links_of(lanes[j], 'successor'), links_of(lanes[j], 'predecessor')
                    ensures('successor of a lane', suc == ([str(s * (j + 1))] if k + 1 < n or ring else []))
                    ensures('predecessor of a lane', pred == ([str(s * (j + 1))] if k > 0 or ring else []))
                forall(count, one)
