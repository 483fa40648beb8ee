"""C09: lane linkers link each lane pair once, on both sides."""
from spec import *
import xml.etree.ElementTree as ET
from pyodrx.lane import Lane, Lanes, LaneSection
from pyodrx.links import LaneLinker
from contracts.lanes import make_lane, lane_element


def section(k, lanes, links):
    """element of section k with the given left lanes and their links"""
    e = ET.Element('laneSection', attrib={'s': str(any_real('s', k))})
    if lanes > 0:
        left = ET.SubElement(e, 'left')
        for i in range(lanes):
            left.append(lane_element(i + 1, links(i), 'lane', k, i))
    ET.SubElement(e, 'center').append(lane_element(0, [], 'centre', k))
    return e


def build(k, lanes):
    sec = LaneSection(any_real('s', k), make_lane('centre', k))
    for i in range(lanes):
        sec.add_left_lane(make_lane('lane', k, i))
    return sec


def contract_pairs_of_two_sections():
    """n lanes each; pair i joins lane i with its mirror; the linker is passed once, twice or with others"""
    n = any_size('lanes', 1, 2)
    extra = any_size('unlinked', 0, 1)
    first, second = build(0, n + extra), build(1, n + extra)
    linker = LaneLinker()
    for i in range(n):
        linker.add_link(predlane=first.leftlanes[i], succlane=second.leftlanes[n - 1 - i])
    lanes = Lanes()
    how = any_case('how', 4)
    if how == 0:
        lanes.add_lanesection(first)
        lanes.add_lanesection(second, linker)
    elif how == 1:
        lanes.add_lanesection(first, linker)
        lanes.add_lanesection(second, [linker])
    elif how == 2:
        lanes.add_lanesection(first, [])
        lanes.add_lanesection(second, [LaneLinker(), linker, linker])
    else:
        lanes.add_lanesection(first, [linker, LaneLinker()])
        lanes.add_lanesection(second)
    want = ET.Element('lanes')
    want.append(section(0, n + extra, lambda i: [('successor', n - i)] if i < n else []))
    want.append(section(1, n + extra, lambda i: [('predecessor', n - i)] if i < n else []))
    ensures_tree('lanes', lanes.get_element(), want)


def contract_three_sections():
    """the middle section has predecessors and successors; linkers per joint, in one list or one by one"""
    n = any_size('lanes', 1, 2)
    secs = [build(k, n) for k in range(3)]
    a, b = LaneLinker(), LaneLinker()
    for i in range(n):
        a.add_link(secs[0].leftlanes[i], secs[1].leftlanes[i])
    for i in range(n):
        b.add_link(secs[1].leftlanes[i], secs[2].leftlanes[i])
    lanes = Lanes()
    lanes.add_lanesection(secs[0], a if any_bool('early') else None)
    if any_bool('one_by_one'):
        lanes.add_lanesection(secs[1], a)
        lanes.add_lanesection(secs[2], b)
    else:
        lanes.add_lanesection(secs[1], [a, b])
        lanes.add_lanesection(secs[2], [a, b])
    want = ET.Element('lanes')
    want.append(section(0, n, lambda i: [('successor', i + 1)]))
    want.append(section(1, n, lambda i: [('predecessor', i + 1), ('successor', i + 1)]))
    want.append(section(2, n, lambda i: [('predecessor', i + 1)]))
    ensures_tree('lanes', lanes.get_element(), want)


def contract_any_pairs():
    """pairs of any lanes, also several of one lane, spread over two linkers"""
    first, second = build(0, 2), build(1, 2)
    linkers = [LaneLinker(), LaneLinker()]
    sucs, preds = [[], []], [[], []]
    pairs = any_size('pairs', 0, 3)
    order = []
    for p in range(pairs):
        i, j, l = any_case('from', 2, p), any_case('to', 2, p), any_case('linker', 2, p)
        linkers[l].add_link(first.leftlanes[i], second.leftlanes[j])
        order.append((l, i, j))
    for l in range(2):
        for k, i, j in order:
            if k == l:
                sucs[i].append(('successor', j + 1))
                preds[j].append(('predecessor', i + 1))
    lanes = Lanes()
    lanes.add_lanesection(first)
    lanes.add_lanesection(second, linkers)
    want = ET.Element('lanes')
    want.append(section(0, 2, lambda i: sucs[i]))
    want.append(section(1, 2, lambda i: preds[i]))
    ensures_tree('lanes', lanes.get_element(), want)


def contract_sections_in_order():
    n = any_size('sections', 0, 3)
    lanes = Lanes()
    want = ET.Element('lanes')
    for k in range(n):
        lanes.add_lanesection(build(k, 1))
        want.append(section(k, 1, lambda i: []))
    ensures_tree('lanes', lanes.get_element(), want)


def two_sided(k):
    sec = LaneSection(any_real('s', k), make_lane('centre', k))
    sec.add_left_lane(make_lane('left', k))
    sec.add_right_lane(make_lane('right', k))
    return sec


def two_sided_element(k, left, centre, right):
    e = ET.Element('laneSection', attrib={'s': str(any_real('s', k))})
    ET.SubElement(e, 'left').append(lane_element(1, left, 'left', k))
    ET.SubElement(e, 'center').append(lane_element(0, centre, 'centre', k))
    ET.SubElement(e, 'right').append(lane_element(-1, right, 'right', k))
    return e


def contract_lanes_of_both_sides():
    """pairs of left, centre and right lanes; pairs added to a linker that has been used already"""
    secs = [two_sided(k) for k in range(3)]
    lanes_of = [[s.leftlanes[0], s.centerlane, s.rightlanes[0]] for s in secs]
    ids = [1, 0, -1]
    linker = LaneLinker()
    links = [[[] for i in range(3)] for k in range(3)]
    early, late = any_case('early', 2 if SYMBOLIC else 5), any_case('late', 2 if SYMBOLIC else 5)
    lanes = Lanes()

    def pair(k, p):
        i, j = any_case('from', 3, p), any_case('to', 3, p)
        linker.add_link(lanes_of[k][i], lanes_of[k + 1][j])
        links[k][i].append(('successor', ids[j]))
        links[k + 1][j].append(('predecessor', ids[i]))
    for p in range(early):
        pair(0, p)
    lanes.add_lanesection(secs[0], linker if any_bool('at_once') else None)
    lanes.add_lanesection(secs[1], linker)
    for p in range(late):
        pair(1, 10 + p)
    lanes.add_lanesection(secs[2], [linker] if any_bool('list') else linker)
    want = ET.Element('lanes')
    for k in range(3):
        want.append(two_sided_element(k, links[k][0], links[k][1], links[k][2]))
    ensures_tree('lanes', lanes.get_element(), want)


def contract_lanes_linked_before():
    """lanes that have links already get the ones of the linker after them"""
    secs = [two_sided(0), two_sided(1)]
    a, b = secs[0].rightlanes[0], secs[1].rightlanes[0]
    n = any_size('old', 0, 2)
    old_a, old_b = [], []
    for i in range(n):
        kind = 'successor' if any_bool('old_suc', i) else 'predecessor'
        a.add_link(kind, any_int('old_to', i))
        old_a.append((kind, any_int('old_to', i)))
        b.add_link('successor', any_int('old_to', i))
        old_b.append(('successor', any_int('old_to', i)))
    linker = LaneLinker()
    linker.add_link(a, b)
    lanes = Lanes()
    lanes.add_lanesection(secs[0])
    lanes.add_lanesection(secs[1], linker)
    want = ET.Element('lanes')
    want.append(two_sided_element(0, [], [], old_a + [('successor', -1)]))
    want.append(two_sided_element(1, [], [], old_b + [('predecessor', -1)]))
    ensures_tree('lanes', lanes.get_element(), want)
