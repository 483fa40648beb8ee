"""Lanes, lane sections and roads built from contract inputs, and their expected elements."""
from spec import *
import xml.etree.ElementTree as ET
from pyodrx.enumerations import LaneType, RoadMarkType, ElementType, ContactPoint
from pyodrx.lane import Lane, LaneSection, Lanes, RoadMark
from pyodrx.geometry import PlanView, Line
from pyodrx.opendrive import Road


def name_of(member):
    """how an enumeration value is written"""
    return member.name.replace('_', ' ')


def make_lane(*i):
    return Lane(any_enum(LaneType, 'lane_type', *i), any_real('a', *i), any_real('b', *i), any_real('c', *i), any_real('d', *i), any_real('soffset', *i))


def lane_element(lane_id, links, *i):
    """the element of make_lane(*i) with the given id and links [(kind, id)]"""
    e = ET.Element('lane', attrib={'id': str(lane_id), 'type': name_of(any_enum(LaneType, 'lane_type', *i)), 'level': 'false'})
    l = ET.SubElement(e, 'link')
    for kind, id in links:
        ET.SubElement(l, kind, attrib={'id': str(id)})
    ET.SubElement(e, 'width', attrib={'a': str(any_real('a', *i)), 'b': str(any_real('b', *i)), 'c': str(any_real('c', *i)), 'd': str(any_real('d', *i)), 'sOffset': str(any_real('soffset', *i))})
    return e


def make_section(left, right, *i):
    """a lane section with the given numbers of lanes; lanes are numbered 0 (centre), 1.. left, -1.. right"""
    sec = LaneSection(any_real('sec_s', *i), Lane(a=0))
    for j in range(left):
        sec.add_left_lane(Lane(a=any_real('left_a', *i, j)))
    for j in range(right):
        sec.add_right_lane(Lane(a=any_real('right_a', *i, j)))
    return sec


def line_road(id, lanes, road_type=-1, length=None):
    pv = PlanView()
    pv.add_geometry(Line(100 if length is None else length))
    return Road(id, pv, lanes, road_type)
