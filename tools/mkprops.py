import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["pyodrx/"+f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m) for n,m in state]
    P.append(d)
I=['inputs'];H=['inputs','histories'];C=['inputs','configurations']
p('C01','Geometry end pose is the end of the declared curve',
"For a Line of positive length, an Arc of non-zero curvature (given by a positive length, or by a non-zero angle, in which case it still turns in the direction of its curvature over the length |angle/curvature|), a Spiral of positive length whose curvature goes linearly from its start to its end curvature, and a ParamPoly3, get_end_data(x,y,h) returns for every start pose the position and heading reached by following exactly that curve from (x,y) with initial heading h. For a ParamPoly3 this is the pair of polynomials evaluated at p=1 (normalized) or p=length (arcLength) in the frame of the start pose, with the heading turned by the direction of the polynomial's tangent there. The fourth value returned is the length of that curve (for a normalized ParamPoly3 the integral of the speed over [0,1]).",
I,"every parameter value of every geometry type and every start pose, all real numbers",
"The tests sample about thirty numeric cases, none of them a spiral with both curvatures non-zero and equal sign and heading, and only one ParamPoly3; the formula must hold for all real parameters.",
['geometry.py'],[("Line.get_end_data","pyodrx/geometry.py"),("Arc.get_end_data","pyodrx/geometry.py"),("Spiral.get_end_data / EulerSpiral.calc","pyodrx/geometry.py"),("ParamPoly3.get_end_data","pyodrx/geometry.py")])
p('C02','Backward evaluation of a geometry inverts forward evaluation',
"For every Line, Arc, Spiral of positive length and ParamPoly3 and every start pose (x,y,h), if get_end_data(x,y,h) is (x2,y2,h2,l) then get_start_data(x2,y2,h2+pi) is (x,y,h+pi,l), headings being equal modulo 2*pi. Both functions give the same answers no matter which of them were called before on the same geometry object, and how often.",
H,"every geometry, every pose and every earlier sequence of calls on the same object",
"Tests check the round trip for a few sample poses in one fixed call order and never for ParamPoly3.",
['geometry.py'],[("get_start_data of Line, Arc, Spiral, ParamPoly3","pyodrx/geometry.py")],[("Arc.angle, Arc.length, ParamPoly3.length","caches written by both evaluation directions")])
p('C03','A planview placed from its start is one gapless chain of geometries',
"When adjust_geometries() is called on a PlanView with start pose (x,y,h) and any number of added geometries, the emitted geometry elements are the added geometries in the order added, the first starts at (x,y,h) with s=0, and each following one starts at the end pose of the one before it with s increased by that one's length. get_total_length() is the sum of all lengths, get_start_point() is the given start pose and get_end_point() is the end pose of the last geometry. If a heading was given with every geometry, each geometry starts with its given heading instead.",
I,"any number and mix of geometries, any start pose",
"Tests print planviews of one or two geometries and assert no emitted coordinates.",
['geometry.py'],[("PlanView.adjust_geometries / _Geometry","pyodrx/geometry.py")],[("PlanView.present_x/y/h/s","running pose and road coordinate")])
p('C04','A planview placed from its end is the same gapless chain',
"When adjust_geometries(True) is called on a PlanView (no heading overrides) whose set start pose (x,y,h) is the end of the road seen against the direction of travel, the emitted geometry elements are the added geometries in the order added, with s starting at 0 and increasing by each length, each starting at the end pose of the one before it, and the last one ending at (x,y) with heading h+pi modulo 2*pi. get_end_point() is that end pose, get_start_point() is the start pose of the first geometry and get_total_length() is the sum of all lengths.",
I,"any number and mix of geometries, any end pose",
"No test looks at geometries placed from their end.",
['geometry.py'],[("PlanView.adjust_geometries(from_end)","pyodrx/geometry.py"),("_Geometry.get_start_data","pyodrx/geometry.py")],[("PlanView._adjusted_geometries","placed geometries, in road order")])
p('C05','A road placed next to a neighbour meets it at the contact point',
"When a road is placed relative to its already placed predecessor (successor) road, its start (end) lies at the neighbour's declared contact point and its direction of travel continues away from (arrives at) the neighbour there: it equals the neighbour's heading at that point when start meets end, and is opposite to it when two starts or two ends meet, modulo 2*pi. With a lane offset n on that link the position is displaced by exactly 3*n metres to the left of the placed road's own direction of travel at that point. Neither the neighbour nor any other road moves, and Road.get_end_point() and the planview report the resulting poses.",
C,"every pose and geometry of the two roads, each of the four contact combinations, every lane offset",
"Tests build a few connected roads and assert lane links only, no coordinates.",
['opendrive.py','geometry.py'],[("OpenDrive.adjust_road_wrt_neighbour","pyodrx/opendrive.py"),("PlanView.adjust_geometries","pyodrx/geometry.py"),("Road.get_end_point","pyodrx/opendrive.py")])
p('C06','Placing a road network places every road exactly once',
"For roads with distinct ids whose predecessor/successor links name roads of the network or junctions (element type junction, never looked up as a road), adjust_roads_and_lanes() and adjust_startpoints() either place every road exactly once or raise UndefinedRoadNetwork, and raise it only when no unplaced road has a road link to a placed road. Roads created with a start pose are placed at that pose; if there are none, the first road added starts at (0,0) with heading 0. Every other road is placed, when lane offsets are zero, so that the end named by one of the links between it and another placed road meets that road's declared contact point in position and direction.",
['configurations','inputs','histories'],"any number of roads, any link graph consistent at its joints, any order of adding the roads, any junction ids",
"Tests place networks of two or three roads in one order; the result depends on the link graph and insertion order.",
['opendrive.py'],[("OpenDrive.adjust_startpoints","pyodrx/opendrive.py"),("OpenDrive.adjust_road_wrt_neighbour","pyodrx/opendrive.py")],[("PlanView.adjusted","the road has been placed")])
p('C07','Lanes are numbered outwards from the centre by side',
"In every lane section the centre lane has id 0, the left lanes have ids 1,2,3,... and the right lanes ids -1,-2,-3,... in the order they were added, however left and right additions are interleaved. The emitted section lists exactly these lanes with these ids, lefts under left, rights under right, the centre lane under center, and a side without lanes is not emitted.",
H,"any number of lanes and any interleaving of additions",
"Tests add at most a few lanes per side and print the result.",
['lane.py'],[("LaneSection.add_left_lane / add_right_lane / get_element","pyodrx/lane.py")],[("LaneSection.leftlanes/rightlanes","lanes by side, inner first")])
p('C08','Lanes of consecutive roads are linked one to one',
"For two ordinary roads A and B with different ids where A's successor is road B at its start and B's predecessor is road A at its end (and that is their only joint), create_lane_links in either argument order, and adjust_roads_and_lanes, give every left and right lane of A's last lane section exactly one new successor link to the lane with the same id and every left and right lane of B's first lane section exactly one new predecessor link to the lane with the same id, and add no other lane link. If the two meeting sections differ in their number of left lanes or of right lanes, NotSameAmountOfLanesError is raised. Two ordinary roads that are not linked as predecessor and successor of each other get no lane links.",
C,"any number of lane sections and lanes, any road ids",
"Tests use one lane section with one lane per side, where first and last section coincide and ids cannot be mixed up.",
['links.py','opendrive.py'],[("create_lane_links / _create_links_roads / are_roads_consecutive","pyodrx/links.py"),("_get_related_lanesection","pyodrx/links.py"),("OpenDrive.adjust_roads_and_lanes","pyodrx/opendrive.py")])
p('C09','Lane linkers link each lane pair once, on both sides',
"When lane sections are added to Lanes with one LaneLinker or a list of them, every pair (predecessor lane, successor lane) added to a linker results in exactly one successor link on the predecessor lane naming the successor lane's id and exactly one predecessor link on the successor lane naming the predecessor lane's id, in the order the pairs were added, even when the same linker is passed for several sections. Lanes not named in a linker get no link, and all added lane sections are emitted in the order added.",
H,"any number of linkers, pairs and sections, and any repetition of linkers",
"One test adds one linker with two pairs and prints the result.",
['lane.py','links.py'],[("Lanes.add_lanesection","pyodrx/lane.py"),("LaneLinker.add_link","pyodrx/links.py")],[("_lanelink.used","pair already applied")])
p('C10','Connecting roads get lane links with the right sign and offset',
"For a connecting road (road type other than -1) whose predecessor and successor are two different ordinary roads, create_lane_links with either road in either argument order adds to every left and right lane of the connecting road's first (predecessor) respectively last (successor) lane section exactly one predecessor (successor) link to lane id sign*own id + lane offset of that link, where sign is +1 if the directions of travel continue (predecessor met at its end, successor met at its start) and -1 if they oppose. The ordinary roads and the connecting road's other lane sections get no lane links, however many lanes and sections the ordinary roads have, and a road that the connecting road does not name leaves everything unchanged.",
C,"any number of lanes and sections, all contact points, all offsets and ids",
"Tests use one section with one lane on each side.",
['links.py'],[("_create_links_connecting_road / _get_related_lanesection","pyodrx/links.py")],[("Road.lane_offset_suc / lane_offset_pred","lane offset of the link")])
p('C11','create_junction connects every connecting road at both ends',
"create_junction(junction_roads, id, roads) returns a junction with the given id that has, for each connecting road in order, two connections: first one whose incoming road is its successor with contact point end, then one whose incoming road is its predecessor with contact point start, both naming that connecting road. Each connection has exactly one lane link per lane of the connecting road's last (successor) respectively first (predecessor) lane section, going to that lane's id from lane sign*id + lane offset of that link, where sign is +1 if the directions of travel continue (predecessor met at its end, successor met at its start) and -1 otherwise.",
C,"any number of connecting roads, lanes, lane sections, contact points and lane offsets",
"No test runs create_junction.",
['generators.py','links.py'],[("create_junction / _create_junction_links / get_road_by_id","pyodrx/generators.py"),("_get_related_lanesection","pyodrx/links.py")])
p('C12','Connections of a junction have distinct ids',
"For any sequence of add_connection calls with distinct Connection objects, an explicitly given id is kept and emitted, and a connection without an id gets an id that no connection added earlier to that junction has. All connections are emitted in the order added, with all their lane links in the order added.",
H,"any number of connections and any mix of explicit and automatic ids",
"Tests add two connections without explicit ids.",
['links.py'],[("Junction.add_connection / Connection._set_id","pyodrx/links.py")],[("Junction._id_counter","next automatic id")])
p('C13','Objects and signals never share an id within their class',
"For any sequence of add_object and add_signal calls (single or list, on any roads, each object added once), the ids of all added Objects are pairwise different as strings and so are those of all added Signals. A requested id that no earlier added element of the same class has is kept; otherwise, or when no id was given, a fresh id is assigned.",
H,"any history of additions with any mix of ids, types of ids and roads in one process",
"Tests add a handful of elements; uniqueness is over the whole history of the process.",
['signals_objects.py','opendrive.py'],[("_SignalObjectBase._update_id","pyodrx/signals_objects.py"),("Road.add_object / Road.add_signal","pyodrx/opendrive.py")],[("_usedIDs / _IDCounter","ids used per class in this process")])
p('C14','The document contains every added part once and in order',
"OpenDrive.get_element() has one header, then one road element per added road (distinct ids) in the order added, then one junction element per added junction in the order added. Each road element contains exactly its link, planView and lanes elements in this order, then signals and objects elements only if it has any, holding one element per added signal or object in the order added; its link element holds exactly the links added, in order. Lanes, lane sections, lanes, road marks and lane widths are likewise each emitted exactly once, in the order added, and a lane has a roadMark element if and only if one was added.",
I,"any number of roads, junctions, signals, objects, sections and lanes",
"Tests print documents and assert nothing about their structure.",
['opendrive.py','lane.py','links.py','geometry.py'],[("get_element of OpenDrive, Road, Lanes, LaneSection, Lane, _Links","pyodrx/opendrive.py")])
p('C15','Road, lane, geometry and link attributes carry the given values',
"The emitted attributes carry exactly the values given: header name (with revMajor 1 and revMinor 5), road name and rule (omitted when not given), id, junction and length (the planview's total length), geometry s, x, y, hdg, length, spiral curvStart/curvEnd, arc curvature, paramPoly3 aU..dV and pRange, laneSection s, lane id, type and level false, width a, b, c, d and sOffset, and junction name and id. A link carries elementType and elementId (or only id when it has no element type) plus contactPoint when given, or direction for a neighbor; a connection carries incomingRoad, connectingRoad, contactPoint and id, and each of its laneLinks from and to. Enumeration values are written as the member's name with underscores as spaces, and no attribute is ever the text None.",
I,"every value of every attribute",
"Tests print elements and assert no attribute.",
['geometry.py','lane.py','links.py','opendrive.py','helpers.py'],[("get_attributes of all element classes","pyodrx/*.py"),("enum2str","pyodrx/helpers.py")])
p('C16','Signal and object attributes carry the given values',
"A Signal's element carries id, s, t, country in upper case, type, subtype, dynamic, zOffset and orientation exactly as given, and width, height, name, value with unit (a unit being given with every value) exactly when given, and pitch, roll and hOffset exactly when non-zero. An Object's element carries id, s, t, type, dynamic, zOffset, orientation and hdg, and subtype, name, height and validLength exactly when given, pitch and roll exactly when non-zero, and either radius alone (when given) or width and length together (a missing one of the two written as 0), or none of the three. Orientation is written + for positive, - for negative and none otherwise, dynamic as yes or no, and an object type enumeration value as its name with underscores as spaces.",
I,"every combination of optional inputs and every value",
"Tests print three sample objects and two signals.",
['signals_objects.py'],[("get_common_attributes / Signal.get_attributes / Object.get_attributes","pyodrx/signals_objects.py")])
p('C17','Under- and over-specified inputs are rejected',
"Spiral raises NotEnoughInputArguments when none of length, angle and cdot is given and ToManyOptionalArguments when more than one is; Arc raises NotEnoughInputArguments without length and angle, ToManyOptionalArguments with both, and ValueError for zero curvature; PlanView raises NotEnoughInputArguments when one or two of its three start values are given; ParamPoly3 with arcLength range raises ValueError without a length; a neighbor link without direction raises ValueError; and emitting a lane that is in no lane section raises ValueError. Inputs with exactly one of the alternatives, including the value 0 for start values of a PlanView, are accepted.",
I,"every combination of given and missing inputs and every value",
"No test checks that any of these is rejected.",
['geometry.py','links.py','lane.py'],[("constructors of Spiral, Arc, PlanView, ParamPoly3","pyodrx/geometry.py"),("_Link.__init__","pyodrx/links.py"),("Lane.get_attributes","pyodrx/lane.py")])
p('C18','A road has at most one successor, one predecessor and two neighbors',
"For any sequence of add_successor, add_predecessor and add_neighbor calls on a road, the first successor, the first predecessor and the first two neighbors are added and every further one raises ValueError and leaves the road's emitted links and lane offsets as they were. The road's link element then contains exactly the accepted links in the order added, with the data given.",
H,"any sequence of link calls with any arguments",
"No test makes a rejected call.",
['opendrive.py','links.py'],[("Road.add_successor / add_predecessor / add_neighbor","pyodrx/opendrive.py")],[("Road._neighbor_added","neighbors so far")])
p('C19','Generated roads have the requested lanes and geometry',
"create_road(geometry or list, id, left_lanes, right_lanes, road_type, center_road_mark, lane_width) and create_straight_road(id, length, junction, n_lanes, lane_offset) return an unplaced road with the given id and road type whose planview holds exactly the given geometries in order (one line of the given length), and whose single lane section at s=0 has exactly the requested number of left and right lanes of constant requested width. In create_road the centre lane has width 0 and the given centre mark, and on each side every lane has a broken mark except the outermost, which has a solid one. Any geometry type is accepted by create_road, whichever way its length is given.",
I,"any geometry list, lane counts, widths and ids",
"create_road is not tested; create_straight_road is tested for five inputs on a few fields.",
['generators.py'],[("create_road / create_straight_road / standard_lane","pyodrx/generators.py")])
p('C20','create_junction_roads makes one connecting road per pair of roads',
"For n>=2 roads whose meeting lane sections (the last of road 0, the first of every other) all have the same number m>=1 of left and of right lanes, and increasing angles within one turn (angles[0]=0), create_junction_roads returns, for the pairs i<j in lexicographic order, connecting roads with consecutive ids from startnum and the given junction as road type, with predecessor road i (contact end for i=0, start otherwise) and successor road j (contact start), m lanes on each side as wide as road i's, and a planview that turns by angles[j]-angles[i]-pi (to within 1e-6, for a radius 0<r<=300 and positive spiral and arc parts with 2*spiral_part+arc_part=1): a line if that is 0, else a spiral, an arc of curvature magnitude 1/r and a spiral. Road 0 gets a successor link and every other road a predecessor link to the junction; differing lane counts raise NotSameAmountOfLanesError.",
C,"any number of roads, angles, radius up to 300, lane counts, widths and section counts",
"No test runs create_junction_roads.",
['generators.py'],[("create_junction_roads / create_cloth_arc_cloth / get_lanes_offset","pyodrx/generators.py")])
p('C21','The written file parses back to the document',
"OpenDrive.write_xml writes a well-formed XML file, encoded as it declares and independent of the locale, whose parsed content (element names, attribute names and values including non-ASCII text and XML special characters, and nesting and order) equals that of get_element(), with pretty printing or without, ignoring white space between elements, the header's date and control characters in attribute values. Without a file name the file is named after the OpenDrive with the extension .xodr, and an existing file of that name is replaced completely.",
['inputs','configurations'],"any document and any attribute text",
"No test writes a file.",
['helpers.py','opendrive.py'],[("printToFile","pyodrx/helpers.py"),("OpenDrive.write_xml","pyodrx/opendrive.py")])
p('C22','Roadside objects stand at the road edge along each lane section',
"On a placed road, add_object_roadside(prototype, distance, sOffset, tOffset, side) adds, per lane section in order and per requested side (left before right), one copy of the prototype with s = section s + sOffset, t = (sum of that side's lane widths in the section + tOffset), negated on the right side, hdg = pi on the left and 0 on the right side, and one repetition of the given distance whose length reaches the end of the road (total length - sOffset - section s). The prototype and objects already on the road are unchanged, ids of the added objects are distinct, and on a road that is not placed RoadsAndLanesNotAdjusted is raised and nothing is added.",
C,"any number of sections and lanes, all widths, offsets and sides",
"One test calls it on one road and prints the result.",
['opendrive.py'],[("Road.add_object_roadside","pyodrx/opendrive.py"),("Object.repeat","pyodrx/signals_objects.py")])
p('C23','Lengths derived from angle or curvature change are exact',
"An Arc given by an angle has length |angle/curvature| in every placed planview, and a Spiral given by cdot has length (end curvature - start curvature)/cdot. A Spiral given by an angle, with one of its two curvatures zero, has the positive length for which its heading changes by exactly |angle| in magnitude, 2*|angle| divided by the other curvature's magnitude. The length used for the following geometry, emitted in the geometry element and added to the road length is this length.",
I,"all curvatures, angles and rates",
"Tests sample a few arcs and no spiral given by angle or cdot.",
['geometry.py'],[("Spiral.__init__ / Arc.__init__ / Arc.get_end_data","pyodrx/geometry.py")])
p('C24','Road marks keep given values and default only the missing ones',
"A RoadMark's element carries soffset, type, weight, color and height exactly as given and laneChange exactly when given. If none of length, space, toffset and rule is given (None or 0) it has no type child and its width attribute appears exactly when given; otherwise it has one type child with the mark's type name and width and one line child carrying the given (non-zero) length, space, toffset, rule and width and the soffset. Only values not given (None or 0) are defaulted in the line: length 3 and space 3 for broken, length 3 and space 0 for solid, 0 and 0 for other types, toffset 0, width 0.2 (also as the mark's width) and rule none.",
I,"every combination of given and missing values and every mark type",
"Tests print a few marks.",
['lane.py'],[("RoadMark.__init__ / get_attributes / get_element","pyodrx/lane.py"),("RoadLine.get_attributes","pyodrx/lane.py")])
p('C25','Producing output changes nothing and roads are independent',
"Calling get_element or get_attributes any number of times on an OpenDrive, road, planview, lane, junction, signal or object returns equal documents (apart from the header date) and leaves poses, lengths, ids and links unchanged. Building, changing or placing one road, its lanes, links, objects or signals never changes the emitted element of another road that shares no object with it, including roads made by the generator functions.",
H,"every object and every history of building and emitting",
"Needs comparison of states over arbitrary histories; tests emit each element once.",
['opendrive.py','lane.py','links.py','geometry.py','signals_objects.py','generators.py'],[("get_element of all classes","pyodrx/*.py"),("module-level standard road marks","pyodrx/generators.py")])
p('C26','Repetitions of an object carry given values or the object\'s own',
"Each call of Object.repeat adds one repeat element, in the order called, carrying length, distance, and s, tStart, tEnd, zOffsetStart, zOffsetEnd with the given values, or when not given the object's own s, t and zOffset at the time of the call. heightStart and heightEnd carry the given value, else the object's height, and are absent if neither exists; widthStart, widthEnd, lengthStart, lengthEnd, radiusStart and radiusEnd appear exactly when given. A given value of 0 counts as given, and repeats of one object never change those of another.",
I,"every combination of given and missing values, any number of repeats",
"Tests print two repeated objects.",
['signals_objects.py'],[("Object.repeat","pyodrx/signals_objects.py")])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n'); assert len(d['title'])<=80,d['id']
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,S)
print(len(P))
