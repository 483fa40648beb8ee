"""C24: road marks keep given values and default only the missing ones."""
from spec import *
import xml.etree.ElementTree as ET
from pyodrx.enumerations import RoadMarkType, RoadMarkWeight, RoadMarkColor, MarkRule, LaneChange
from pyodrx.lane import RoadMark
from contracts.lanes import name_of


def head(width):
    a = {'sOffset': str(any_real('soffset')), 'type': name_of(any_enum(RoadMarkType, 'mark')), 'weight': name_of(any_enum(RoadMarkWeight, 'weight')), 'color': name_of(any_enum(RoadMarkColor, 'color')), 'height': str(any_real('height'))}
    if width is not None:
        a['width'] = str(width)
    if any_none_or('no_change', any_enum(LaneChange, 'change')) is not None:
        a['laneChange'] = name_of(any_enum(LaneChange, 'change'))
    return ET.Element('roadMark', attrib=a)


def mark(width, **kw):
    return RoadMark(any_enum(RoadMarkType, 'mark'), width, soffset=any_real('soffset'), color=any_enum(RoadMarkColor, 'color'), marking_weight=any_enum(RoadMarkWeight, 'weight'), height=any_real('height'),
                    laneChange=any_none_or('no_change', any_enum(LaneChange, 'change')), **kw)


def contract_no_line_without_line_data():
    width = any_none_or('no_width', any_real('width'))
    zero = None if any_bool('none') else 0
    m = mark(width, length=zero, space=zero, toffset=zero, rule=None)
    want = head(width)
    ensures_tree('road mark without line', m.get_element(), want)
    ensures_tree('road mark without line, again', m.get_element(), want)


def line(width, length, space, toffset, rule):
    """the element wanted when at least one value is given; the values are None or 0 when not given"""
    kind = any_enum(RoadMarkType, 'mark')
    if not width:
        width = 0.2
    if not length:
        length = 3 if kind == RoadMarkType.broken or kind == RoadMarkType.solid else 0
    if not space:
        space = 3 if kind == RoadMarkType.broken else 0
    e = head(width)
    t = ET.SubElement(e, 'type', attrib={'name': name_of(kind), 'width': str(width)})
    ET.SubElement(t, 'line', attrib={'length': str(length), 'space': str(space), 'tOffset': str(toffset if toffset else 0), 'rule': 'none' if rule is None else name_of(rule), 'width': str(width), 'sOffset': str(any_real('soffset'))})
    return e


def not_given():
    return None if any_bool('none') else 0


def given_line(length, space, toffset, rule):
    width = any_none_or('no_width', any_real('width'))
    m = mark(width, length=length, space=space, toffset=toffset, rule=rule)
    ensures_tree('road mark with line', m.get_element(), line(width, length, space, toffset, rule))


def contract_only_length_given():
    length = any_real('length')
    requires(length != 0)
    given_line(length, not_given(), not_given(), None)


def contract_only_space_given():
    space = any_real('space')
    requires(space != 0)
    given_line(not_given(), space, not_given(), None)


def contract_only_toffset_given():
    toffset = any_real('toffset')
    requires(toffset != 0)
    given_line(not_given(), not_given(), toffset, None)


def contract_only_rule_given():
    given_line(not_given(), not_given(), not_given(), any_enum(MarkRule, 'rule'))


def contract_any_given():
    """any of the four, and at least one of them"""
    length, space, toffset = any_real('length'), any_real('space'), any_real('toffset')
    rule = any_none_or('no_rule', any_enum(MarkRule, 'rule'))
    requires(length != 0 or space != 0 or toffset != 0 or rule is not None)
    given_line(length, space, toffset, rule)
