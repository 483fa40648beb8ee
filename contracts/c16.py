"""C16: signal and object attributes carry the given values."""
from spec import *
import xml.etree.ElementTree as ET
from pyodrx.enumerations import ObjectType, Orientation, Dynamic
from pyodrx.signals_objects import Signal, Object
from contracts.lanes import name_of


def orientation_text(o):
    if o == Orientation.positive:
        return '+'
    if o == Orientation.negative:
        return '-'
    return 'none'


def given(e, key, value):
    """the attribute is there exactly when the value is not None"""
    if value is None:
        ensures('%s omitted' % key, e.get(key) is None)
    else:
        ensures_same('%s given' % key, e.get(key), str(value))


def nonzero(e, key, value):
    if value == 0:
        ensures('%s omitted when zero' % key, e.get(key) is None)
    else:
        ensures_same('%s given' % key, e.get(key), str(value))


def only(e, names):
    ensures('no other attribute', all([k in names for k in e.attrib.keys()]))


SIGNAL = ['id', 's', 't', 'country', 'type', 'subtype', 'dynamic', 'zOffset', 'orientation', 'width', 'height', 'name', 'value', 'unit', 'pitch', 'roll', 'hOffset']
OBJECT = ['id', 's', 't', 'type', 'dynamic', 'zOffset', 'orientation', 'hdg', 'subtype', 'name', 'height', 'validLength', 'pitch', 'roll', 'radius', 'width', 'length']


def contract_signal_always():
    s = Signal(any_real('s'), any_real('t'), any_text('country', symbol=True), any_text('type'), any_text('subtype'), id=any_text('id'), dynamic=any_enum(Dynamic, 'dynamic'),
               zOffset=any_real('zOffset'), orientation=any_enum(Orientation, 'orientation'))
    e = s.get_element()
    want = ET.Element('signal', attrib={'id': any_text('id'), 's': str(any_real('s')), 't': str(any_real('t')), 'country': any_text('country', symbol=True).upper(), 'type': any_text('type'),
                                        'subtype': any_text('subtype'), 'dynamic': any_enum(Dynamic, 'dynamic').name, 'zOffset': str(any_real('zOffset')),
                                        'orientation': orientation_text(any_enum(Orientation, 'orientation'))})
    ensures_tree('signal', e, want)


def signal(**kw):
    return Signal(any_real('s'), any_real('t'), 'se', any_text('type'), id=any_int('id'), **kw).get_element()


def contract_signal_optional_texts():
    name, value = any_none_or('no_name', any_text('name')), any_none_or('no_value', any_real('value'))
    e = signal(name=name, value=value, unit=any_none_or('no_unit', 'km/h') if value is None else 'km/h')
    given(e, 'name', name)
    given(e, 'value', value)
    given(e, 'unit', None if value is None else 'km/h')
    given(e, 'width', None)
    given(e, 'height', None)
    ensures_same('country', e.get('country'), 'SE')
    ensures_same('id', e.get('id'), str(any_int('id')))
    only(e, SIGNAL)


def contract_signal_optional_numbers():
    width, height = any_none_or('no_width', any_real('width')), any_none_or('no_height', any_real('height'))
    pitch, roll, hoff = any_real('pitch'), any_real('roll'), any_real('hOffset')
    e = signal(width=width, height=height, pitch=pitch, roll=roll, hOffset=hoff)
    given(e, 'width', width)
    given(e, 'height', height)
    nonzero(e, 'pitch', pitch)
    nonzero(e, 'roll', roll)
    nonzero(e, 'hOffset', hoff)
    given(e, 'name', None)
    given(e, 'value', None)
    given(e, 'unit', None)
    only(e, SIGNAL)


def contract_object_always():
    if any_bool('enumerated'):
        kind, kind_text = any_enum(ObjectType, 'object_type'), name_of(any_enum(ObjectType, 'object_type'))
    else:
        kind, kind_text = any_text('type'), any_text('type')
    o = Object(any_real('s'), any_real('t'), kind, id=any_text('id'), dynamic=any_enum(Dynamic, 'dynamic'), zOffset=any_real('zOffset'), orientation=any_enum(Orientation, 'orientation'), hdg=any_real('hdg'))
    want = ET.Element('object', attrib={'id': any_text('id'), 's': str(any_real('s')), 't': str(any_real('t')), 'type': kind_text, 'dynamic': any_enum(Dynamic, 'dynamic').name,
                                        'zOffset': str(any_real('zOffset')), 'orientation': orientation_text(any_enum(Orientation, 'orientation')), 'hdg': str(any_real('hdg'))})
    ensures_tree('object', o.get_element(), want)


def object(**kw):
    return Object(any_real('s'), any_real('t'), id=any_int('id'), **kw).get_element()


def contract_object_shape():
    """radius alone, width and length together, or none of them"""
    width, length, radius = any_none_or('no_width', any_real('width')), any_none_or('no_length', any_real('length')), any_none_or('no_radius', any_real('radius'))
    e = object(width=width, length=length, radius=radius)
    if radius is not None:
        width, length = None, None
    elif width is not None and length is None:
        length = 0
    elif length is not None and width is None:
        width = 0
    given(e, 'radius', radius)
    given(e, 'width', width)
    given(e, 'length', length)
    given(e, 'subtype', None)
    given(e, 'name', None)
    given(e, 'height', None)
    given(e, 'validLength', None)
    only(e, OBJECT)


def contract_object_optional():
    subtype, name = any_none_or('no_subtype', any_text('subtype')), any_none_or('no_name', any_text('name'))
    height, valid = any_none_or('no_height', any_real('height')), any_none_or('no_valid', any_real('valid'))
    e = object(subtype=subtype, name=name, height=height, validLength=valid)
    given(e, 'subtype', subtype)
    given(e, 'name', name)
    given(e, 'height', height)
    given(e, 'validLength', valid)
    given(e, 'radius', None)
    given(e, 'width', None)
    given(e, 'length', None)
    only(e, OBJECT)


def contract_object_angles():
    pitch, roll = any_real('pitch'), any_real('roll')
    e = object(pitch=pitch, roll=roll, hdg=any_real('hdg'))
    nonzero(e, 'pitch', pitch)
    nonzero(e, 'roll', roll)
    ensures_same('hdg', e.get('hdg'), str(any_real('hdg')))
    only(e, OBJECT)


def contract_signal_all_given():
    """every optional value at once"""
    p, r, h = any_real('pitch', gt=0), any_real('roll', lt=0), any_real('hOffset', gt=0)
    e = Signal(any_real('s'), any_real('t'), 'DEU', any_text('type'), any_text('subtype'), any_text('id'), any_text('name'), any_enum(Dynamic, 'dynamic'), any_real('value'), any_text('unit'), any_real('zOffset'),
               any_enum(Orientation, 'orientation'), h, p, r, any_real('height'), any_real('width')).get_element()
    want = ET.Element('signal', attrib={'id': any_text('id'), 's': str(any_real('s')), 't': str(any_real('t')), 'country': 'DEU', 'type': any_text('type'),
                                        'subtype': any_text('subtype'), 'dynamic': any_enum(Dynamic, 'dynamic').name, 'zOffset': str(any_real('zOffset')), 'name': any_text('name'),
                                        'orientation': orientation_text(any_enum(Orientation, 'orientation')), 'value': str(any_real('value')), 'unit': any_text('unit'),
                                        'hOffset': str(h), 'pitch': str(p), 'roll': str(r), 'height': str(any_real('height')), 'width': str(any_real('width'))})
    ensures_tree('signal', e, want)


def contract_object_all_given():
    p, r = any_real('pitch', gt=0), any_real('roll', lt=0)
    e = Object(any_real('s'), any_real('t'), any_enum(ObjectType, 'object_type'), any_text('subtype'), any_text('id'), any_text('name'), any_enum(Dynamic, 'dynamic'), any_real('zOffset'), any_enum(Orientation, 'orientation'),
               any_real('hdg'), p, r, any_real('width'), any_real('length'), any_real('height'), None, any_real('valid')).get_element()
    want = ET.Element('object', attrib={'id': any_text('id'), 's': str(any_real('s')), 't': str(any_real('t')), 'type': name_of(any_enum(ObjectType, 'object_type')), 'subtype': any_text('subtype'), 'name': any_text('name'),
                                        'dynamic': any_enum(Dynamic, 'dynamic').name, 'zOffset': str(any_real('zOffset')), 'orientation': orientation_text(any_enum(Orientation, 'orientation')), 'hdg': str(any_real('hdg')),
                                        'pitch': str(p), 'roll': str(r), 'width': str(any_real('width')), 'length': str(any_real('length')), 'height': str(any_real('height')), 'validLength': str(any_real('valid'))})
    ensures_tree('object', e, want)
