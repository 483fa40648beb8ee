"""C10: connecting roads get lane links with the right sign and offset."""
from spec import *
import xml.etree.ElementTree as ET
from pyodrx.enumerations import ElementType, ContactPoint
from pyodrx.lane import Lanes
from pyodrx.links import create_lane_links
from contracts.lanes import make_section, line_road


def lane(id, a, links):
    e = ET.Element('lane', attrib={'id': str(id), 'type': 'driving', 'level': 'false'})
    l = ET.SubElement(e, 'link')
    for kind, to in links:
        ET.SubElement(l, kind, attrib={'id': str(to)})
    ET.SubElement(e, 'width', attrib={'a': str(a), 'b': '0', 'c': '0', 'd': '0', 'sOffset': '0'})
    return e


def section_element(left, right, links, *i):
    """links(lane id) are the links of a lane"""
    e = ET.Element('laneSection', attrib={'s': str(any_real('sec_s', *i))})
    if left > 0:
        l = ET.SubElement(e, 'left')
        for j in range(left):
            l.append(lane(j + 1, any_real('left_a', *i, j), links(j + 1)))
    ET.SubElement(e, 'center').append(lane(0, 0, []))
    if right > 0:
        l = ET.SubElement(e, 'right')
        for j in range(right):
            l.append(lane(-j - 1, any_real('right_a', *i, j), links(-j - 1)))
    return e


def none(id):
    return []


def ordinary(k):
    """an ordinary road with sections of different sizes and its expected lanes"""
    n = any_size('more_sections%d' % k, 0, 1)
    left, right = any_size('road_left%d' % k, 1, 2), any_size('road_right%d' % k, 1, 2)
    lanes = Lanes()
    want = ET.Element('lanes')
    lanes.add_lanesection(make_section(left, right, 'road', k, 'first'))
    want.append(section_element(left, right, none, 'road', k, 'first'))
    for i in range(n):
        lanes.add_lanesection(make_section(1, 1, 'road', k, i))
        want.append(section_element(1, 1, none, 'road', k, i))
    return line_road(any_id('road', k), lanes), want


def sign(contact, other):
    return 1 if contact == other else -1


def connecting(single, first_linked):
    left, right = any_size('left', 1, 2), any_size('right', 1, 2)
    left2, right2 = any_size('left2', 1, 2), any_size('right2', 1, 2)
    mid = any_size('middle_sections', 0, 1)
    lanes = Lanes()
    lanes.add_lanesection(make_section(left, right, 'first'))
    if not single:
        for i in range(mid):
            lanes.add_lanesection(make_section(1, 1, 'mid', i))
        lanes.add_lanesection(make_section(left2, right2, 'last'))
    junction = any_int('junction')
    requires(junction != -1)
    con = line_road(any_id('road', 9), lanes, junction)
    pred, want_pred = ordinary(0)
    suc, want_suc = ordinary(1)
    cp, cs = any_enum(ContactPoint, 'pred_cp'), any_enum(ContactPoint, 'suc_cp')
    off_p, off_s = any_int('offset_pred'), any_int('offset_suc')
    con.add_predecessor(ElementType.road, pred.id, cp, off_p)
    con.add_successor(ElementType.road, suc.id, cs, off_s)
    sign_p, sign_s = sign(cp, ContactPoint.end), sign(cs, ContactPoint.start)
    linked_p = first_linked != 'suc'
    linked_s = first_linked != 'pred'
    if linked_p:
        if any_bool('pred_first_argument'):
            create_lane_links(pred, con)
        else:
            create_lane_links(con, pred)
    if linked_s:
        if any_bool('suc_first_argument'):
            create_lane_links(suc, con)
        else:
            create_lane_links(con, suc)

    def pl(id):
        return [('predecessor', sign_p * id + off_p)] if linked_p else []

    def sl(id):
        return [('successor', sign_s * id + off_s)] if linked_s else []
    want = ET.Element('lanes')
    if single:
        want.append(section_element(left, right, lambda id: pl(id) + sl(id), 'first'))
    else:
        want.append(section_element(left, right, pl, 'first'))
        for i in range(mid):
            want.append(section_element(1, 1, none, 'mid', i))
        want.append(section_element(left2, right2, sl, 'last'))
    ensures_tree('lanes of the connecting road', con.lanes.get_element(), want)
    ensures_tree('lanes of the predecessor', pred.lanes.get_element(), want_pred)
    ensures_tree('lanes of the successor', suc.lanes.get_element(), want_suc)


def contract_one_section():
    connecting(True, 'both')


def contract_several_sections():
    connecting(False, 'both')


def contract_only_predecessor():
    connecting(False, 'pred')


def contract_only_successor():
    connecting(False, 'suc')


def contract_one_sided_roads():
    """sections without left or right lanes"""
    left, right = any_size('left', 0, 1), any_size('right', 0, 1)
    lanes = Lanes()
    lanes.add_lanesection(make_section(left, right, 'first'))
    con = line_road(any_id('road', 9), lanes, 1)
    other = Lanes()
    other.add_lanesection(make_section(1, 0, 'other'))
    pred = line_road(any_id('road', 0), other)
    con.add_predecessor(ElementType.road, pred.id, ContactPoint.end, any_int('offset_pred'))
    create_lane_links(con, pred)
    want = ET.Element('lanes')
    want.append(section_element(left, right, lambda id: [('predecessor', id + any_int('offset_pred'))], 'first'))
    ensures_tree('lanes of the connecting road', con.lanes.get_element(), want)


def contract_road_not_named():
    """a road (ordinary or connecting) that the connecting road does not name, with links of its own to other roads"""
    left, right = any_size('left', 1, 2), any_size('right', 1, 2)
    con_lanes = Lanes()
    con_lanes.add_lanesection(make_section(left, right, 'first'))
    con = line_road(any_id('road', 9), con_lanes, any_int('junction', gt=0))
    stranger_lanes = Lanes()
    stranger_lanes.add_lanesection(make_section(1, 1, 'stranger'))
    stranger = line_road(any_id('road', 2), stranger_lanes, any_int('stranger_type'))
    if any_bool('con_linked'):
        con.add_predecessor(ElementType.road, any_id('road', 0), any_enum(ContactPoint, 'pred_cp'), any_int('offset_pred'))
        con.add_successor(ElementType.road, any_id('road', 1), any_enum(ContactPoint, 'suc_cp'), any_int('offset_suc'))
    if any_bool('stranger_linked'):
        stranger.add_predecessor(ElementType.road, any_id('road', 0), any_enum(ContactPoint, 'stranger_cp'))
        stranger.add_successor(ElementType.road, any_id('road', 3), any_enum(ContactPoint, 'stranger_cs'))
    if any_bool('swap'):
        create_lane_links(con, stranger)
    else:
        create_lane_links(stranger, con)
    want = ET.Element('lanes')
    want.append(section_element(left, right, none, 'first'))
    ensures_tree('lanes of the connecting road', con.lanes.get_element(), want)
    want_stranger = ET.Element('lanes')
    want_stranger.append(section_element(1, 1, none, 'stranger'))
    ensures_tree('lanes of a road not named', stranger.lanes.get_element(), want_stranger)


def contract_named_by_another_connecting_road():
    """another connecting road names the connecting road, which does not name that one: the connecting road is left unchanged"""
    left, right = any_size('left', 1, 2), any_size('right', 1, 2)
    con_lanes = Lanes()
    con_lanes.add_lanesection(make_section(left, right, 'first'))
    con = line_road(any_id('road', 9), con_lanes, any_int('junction', gt=0))
    other_lanes = Lanes()
    other_lanes.add_lanesection(make_section(left, right, 'other'))
    other = line_road(any_id('road', 2), other_lanes, any_int('other_type', gt=0))
    con.add_predecessor(ElementType.road, any_id('road', 0), any_enum(ContactPoint, 'pred_cp'), any_int('offset_pred'))
    con.add_successor(ElementType.road, any_id('road', 1), any_enum(ContactPoint, 'suc_cp'), any_int('offset_suc'))
    if any_bool('as_predecessor'):
        other.add_predecessor(ElementType.road, con.id, any_enum(ContactPoint, 'other_cp'))
    else:
        other.add_successor(ElementType.road, con.id, any_enum(ContactPoint, 'other_cp'))
    if any_bool('swap'):
        create_lane_links(con, other)
    else:
        create_lane_links(other, con)
    want = ET.Element('lanes')
    want.append(section_element(left, right, none, 'first'))
    ensures_tree('lanes of the connecting road', con.lanes.get_element(), want)
