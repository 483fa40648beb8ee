"""C07: lanes are numbered outwards from the centre by side."""
from spec import *
import xml.etree.ElementTree as ET
from pyodrx.lane import Lane, LaneSection
from contracts.lanes import make_lane, lane_element


def contract_numbering():
    n = any_size('n', hi=4)
    s = any_real('s')
    centre = make_lane('centre')
    sec = LaneSection(s, centre)
    left = ET.Element('left')
    right = ET.Element('right')
    lefts = 0
    rights = 0
    for i in range(n):
        lane = make_lane('lane', i)
        if any_bool('to_left', i):
            sec.add_left_lane(lane)
            lefts += 1
            ensures_same('id of a left lane', lane.lane_id, lefts)
            left.append(lane_element(lefts, [], 'lane', i))
        else:
            sec.add_right_lane(lane)
            rights += 1
            ensures_same('id of a right lane', lane.lane_id, -rights)
            right.append(lane_element(-rights, [], 'lane', i))
    ensures_same('id of the centre lane', centre.lane_id, 0)
    want = ET.Element('laneSection', attrib={'s': str(s)})
    if lefts > 0:
        want.append(left)
    ET.SubElement(want, 'center').append(lane_element(0, [], 'centre'))
    if rights > 0:
        want.append(right)
    got = sec.get_element()
    ensures_tree('section', got, want)
