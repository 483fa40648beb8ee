"""C13: objects and signals never share an id within their class."""
from spec import *
from pyodrx.lane import Lanes
from pyodrx.signals_objects import Object, Signal
from contracts.lanes import line_road, make_section

CONFIG = {'fresh': True, 'quick': {'unbounded': 300}, 'concrete_only': ['contract_objects', 'contract_signals']}


def road(k):
    lanes = Lanes()
    lanes.add_lanesection(make_section(1, 1, 'road', k))
    return line_road(any_id('road', k), lanes)


def wanted(i):
    """the requested id: none, a number or a text"""
    c = any_case('request', 3, i)
    if c == 0:
        return None
    if c == 1:
        return any_int('number', i)
    return any_text('text', i)


def obj(i, id):
    return Object(any_real('s', i), any_real('t', i), id=id)


def sig(i, id):
    return Signal(any_real('s', i), any_real('t', i), 'se', '1', id=id)


def ids(roads, kind):
    """the emitted ids, over all roads"""
    out = []
    for r in roads:
        for c in r.get_element():
            if c.tag == kind + 's':
                for e in c:
                    out.append(e.get('id'))
    return out


def check_add(before, request, after):
    """one element was added; `before` are the ids of its class so far"""
    if request is not None and all([b != str(request) for b in before]):
        ensures_same('unused requested id is kept', after, str(request))
    else:
        ensures('fresh id is not used before', all([b != after for b in before]))


def history(n, make, add, kind):
    """n elements one after the other, on two roads"""
    roads = [road(0), road(1)]
    before = []
    for i in range(n):
        r = wanted(i)
        o = make(i, r)
        add(roads[any_case('on', 2, i)], o)
        check_add(before, r, o.get_attributes()['id'])
        before.append(o.get_attributes()['id'])
    got = ids(roads, kind)
    ensures_same('all are emitted', len(got), n)


def contract_objects():
    history(any_size('n', hi=3), obj, lambda r, o: r.add_object(o), 'object')


def contract_signals():
    history(any_size('n', hi=3), sig, lambda r, o: r.add_signal(o), 'signal')


def contract_three_objects_in_lists():
    """added as one list after one element, or as two lists"""
    roads = [road(0), road(1)]
    rs = [wanted(i) for i in range(3)]
    os = [obj(i, rs[i]) for i in range(3)]
    if any_bool('single_first'):
        roads[0].add_object(os[0])
        roads[1].add_object([os[1], os[2]])
    else:
        roads[0].add_object([os[0], os[1]])
        roads[0].add_object([os[2]])
    got = [o.get_attributes()['id'] for o in os]
    for i in range(3):
        check_add(got[:i], rs[i], got[i])


def contract_three_signals_in_lists():
    roads = [road(0), road(1)]
    rs = [wanted(i) for i in range(3)]
    os = [sig(i, rs[i]) for i in range(3)]
    if any_bool('single_first'):
        roads[0].add_signal(os[0])
        roads[1].add_signal([os[1], os[2]])
    else:
        roads[0].add_signal([os[0], os[1]])
        roads[0].add_signal([os[2]])
    got = [o.get_attributes()['id'] for o in os]
    for i in range(3):
        check_add(got[:i], rs[i], got[i])


def contract_classes_are_independent():
    """a requested id is kept even when the other class has it"""
    r = road(0)
    a, b = wanted(0), wanted(1)
    s = sig(0, a)
    r.add_signal(s)
    o = obj(1, b)
    r.add_object(o)
    if b is not None:
        ensures_same('id of the object', o.get_attributes()['id'], str(b))
    if a is not None:
        ensures_same('id of the signal', s.get_attributes()['id'], str(a))


def many(make, add, last):
    """any number of elements with any requests, then one more: its id is right with regard to all of them, so by induction
    over the history that of every element is"""
    n = any_size('n', hi=3)
    r0 = road(0)
    os = []
    for i in range(n):
        o = make(i, wanted(i))
        add(r0, o)
        os.append(o)
    o = make(-1, last)
    add(r0, o)
    check_add([x.get_attributes()['id'] for x in os], last, o.get_attributes()['id'])


def many_in_a_list(make, add, last):
    """the same with a list of any length, of which the last element is looked at"""
    n = any_size('n', hi=3)
    m = 0 if SYMBOLIC else any_size('m', hi=2)
    r0 = road(0)
    os = []
    for i in range(m):
        o = make(100 + i, wanted(100 + i))
        add(r0, o)
        os.append(o)
    new = []
    for i in range(n):
        new.append(make(i, wanted(i)))
    o = make(-1, last)
    new.append(o)
    add(r0, new)
    got = [x.get_attributes()['id'] for x in os] + [new[i].get_attributes()['id'] for i in range(n)]
    check_add(got, last, o.get_attributes()['id'])


def add_object(r, o):
    r.add_object(o)


def add_signal(r, o):
    r.add_signal(o)


def contract_many_objects_then_one_without_id():
    many(obj, add_object, None)


def contract_many_objects_then_one_with_a_number():
    many(obj, add_object, any_int('number', -1))


def contract_many_objects_then_one_with_a_text():
    many(obj, add_object, any_text('text', -1))


def contract_many_signals_then_one_without_id():
    many(sig, add_signal, None)


def contract_many_signals_then_one_with_a_number():
    many(sig, add_signal, any_int('number', -1))


def contract_many_signals_then_one_with_a_text():
    many(sig, add_signal, any_text('text', -1))


def contract_list_of_objects_the_last_without_id():
    many_in_a_list(obj, add_object, None)


def contract_list_of_objects_the_last_with_a_number():
    many_in_a_list(obj, add_object, any_int('number', -1))


def contract_list_of_signals_the_last_without_id():
    many_in_a_list(sig, add_signal, None)


def contract_list_of_signals_the_last_with_a_number():
    many_in_a_list(sig, add_signal, any_int('number', -1))
