From 38875d0f45d7ad9dc1e81f49cfaec6845ee0544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 01/18] fix: PlanView placed from its end emits geometries in
 road order with their own s

---
 pyodrx/geometry.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 0ab0729..cba0ce1 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -272,25 +272,23 @@ class PlanView():
             self.y_end = self.present_y
             self.h_end = self.present_h + np.pi
 
-            lengths = []
             for i in range(len(self._raw_geometries)-1, -1, -1):
 
                 newgeom = _Geometry(self.present_s,self.present_x,self.present_y,self.present_h,self._raw_geometries[i])
                 self.present_x,self.present_y,self.present_h, partial_length = newgeom.get_start_data()
-                lengths.append(partial_length)
                 self._adjusted_geometries.append(newgeom)                  
 
             self.x_start = self.present_x
             self.y_start = self.present_y
             self.h_start = self.present_h + np.pi
 
-            length = sum(lengths)           
+            # the geometries were adjusted from the end of the road, order them along the road
+            self._adjusted_geometries.reverse()
             self.present_s = 0
-             
-            for i in range(len(self._raw_geometries)):
 
-                newgeom.set_s(self.present_s)
-                self.present_s += lengths[i]  
+            for geom in self._adjusted_geometries:
+                geom.set_s(self.present_s)
+                self.present_s += geom.length
 
         self.adjusted = True
 
-- 
2.43.0


From 96be29d806d542530095eaadda1003608381fd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 02/18] fix: ParamPoly3.get_start_data inverts get_end_data

---
 pyodrx/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index cba0ce1..e4014bd 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -841,9 +841,10 @@ class ParamPoly3():
         newu = self.au + self.bu*p + self.cu*p**2 + self.du*p**3
         newv = self.av + self.bv*p + self.cv*p**2 + self.dv*p**3
 
-        new_x = x - (newu*np.cos(h)-np.sin(h)*newv)
-        new_y = y - (newu*np.sin(h)+np.cos(h)*newv)
+        # the heading is given in the inverse direction of the geometry (as for the other geometries)
         new_h = h - np.arctan2(self.bv + 2*self.cv*p + 3*self.dv*p**2,self.bu + 2*self.cu*p + 3*self.du*p**2)
+        new_x = x + newu*np.cos(new_h)-np.sin(new_h)*newv
+        new_y = y + newu*np.sin(new_h)+np.cos(new_h)*newv
 
         return new_x, new_y, new_h, self.length
     def get_end_data(self,x,y,h):
-- 
2.43.0


From ca3e81dcacbd46895a7d531ba9fd63c6671b54c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 03/18] fix: Arc defined by its angle has its length from the
 start

---
 pyodrx/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index e4014bd..05e1d9f 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -578,6 +578,8 @@ class Arc():
         if curvature == 0:
             raise ValueError('You are creating a straight line, please use Line instead')
         self.curvature = curvature
+        if self.length == None:
+            self.length = abs(self.angle/self.curvature)
 
     def get_end_data(self,x,y,h):
         """ Returns information about the end point of the geometry
-- 
2.43.0


From fc5aef1c53966eb203e2b5658904796b236386fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 04/18] fix: create_road accepts geometries whose length is not
 known before placement

---
 pyodrx/generators.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index fa50d33..36c446f 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -65,14 +65,11 @@ def create_road(geometry,id,left_lanes = 1, right_lanes = 1,road_type=-1,center_
             road (Road): a straight road
     """
     pv = PlanView()
-    raw_length = 0
     if isinstance(geometry,list):
         for g in geometry:
             pv.add_geometry(g)
-            raw_length += g.length
     else:
         pv.add_geometry(geometry)
-        raw_length += geometry.length
     
     # create centerlane
     lc = Lane(a=0)
-- 
2.43.0


From ca2e8ff22391ee345dd39e342d0e7c86dbb58206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 05/18] fix: get_lanes_offset raises NotSameAmountOfLanesError
 instead of NameError

---
 pyodrx/generators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index 36c446f..34cb19e 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -13,6 +13,7 @@ from .enumerations import RoadMarkType, MarkRule, ContactPoint, ElementType, Obj
 from .geometry import Line, Arc, Spiral, EulerSpiral, PlanView
 from .opendrive import Road, OpenDrive
 from .links import Junction, Connection, _get_related_lanesection
+from .exceptions import NotSameAmountOfLanesError
 
 
 STD_ROADMARK_SOLID = RoadMark(RoadMarkType.solid,0.2)
-- 
2.43.0


From c361ee459b3e9155c4bc73d0c8f2396832734973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 06/18] fix: get_lanes_offset uses the lane section at the
 contact point

---
 pyodrx/generators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index 34cb19e..aab3061 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -206,9 +206,9 @@ def get_lanes_offset(road1, road2, contactpoint):
     #now we always look at lanesection[0] to take the number of lanes 
     #TO DO - understand if the roads are connect through end or start and then take the relative lane section 
     if contactpoint == ContactPoint.end: 
-        n_lanesection = 0 
+        n_lanesection = -1 
     else:
-        n_lanesection = -1
+        n_lanesection = 0
     if len(road1.lanes.lanesections[n_lanesection].leftlanes) == len(road2.lanes.lanesections[0].leftlanes) and len(road1.lanes.lanesections[n_lanesection].rightlanes) == len(road2.lanes.lanesections[0].rightlanes):
         n_lanes = len(road1.lanes.lanesections[n_lanesection].leftlanes) 
         lane_offset = road1.lanes.lanesections[n_lanesection].leftlanes[0].a     
-- 
2.43.0


From f670eccc28c8f70085ae042ba5fa6635219caa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 07/18] fix: lane linking compares the lane counts of the lane
 sections that meet

---
 pyodrx/links.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 5f3bfce..2803ccc 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -578,7 +578,7 @@ def _create_links_roads(pre_road,suc_road):
     """
     pre_linktype, pre_sign, pre_connecting_lanesec =  _get_related_lanesection(pre_road,suc_road)
     suc_linktype, _, suc_connecting_lanesec =  _get_related_lanesection(suc_road,pre_road)
-    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes) == len(suc_road.lanes.lanesections[-1].leftlanes):
+    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes) == len(suc_road.lanes.lanesections[suc_connecting_lanesec].leftlanes):
         for i in range(len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes)):
             linkid = pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes[i].lane_id*pre_sign
             print(linkid)
@@ -590,7 +590,7 @@ def _create_links_roads(pre_road,suc_road):
         raise NotSameAmountOfLanesError('Road ' + str(pre_road.id) + ' and road ' + str(suc_road.id) + ' does not have the same number of right lanes.')
 
 
-    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes) == len(suc_road.lanes.lanesections[-1].rightlanes):
+    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes) == len(suc_road.lanes.lanesections[suc_connecting_lanesec].rightlanes):
         for i in range(len(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes)):
             linkid = pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes[i].lane_id
             pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes[i].add_link(pre_linktype,linkid)
-- 
2.43.0


From 381fc82ffc65b17c7bc7898d31b40d5fc1b723ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 08/18] fix: lane links of connecting roads use the lane
 sections and lanes that meet

---
 pyodrx/links.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 2803ccc..b3afd06 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -486,13 +486,11 @@ def _create_links_connecting_road(connecting,road):
 
     """
     linktype, sign, connecting_lanesec =  _get_related_lanesection(connecting,road)
-    _, _, road_lanesection_id =  _get_related_lanesection(road,connecting)
-
     if connecting_lanesec != None:
         if connecting.lanes.lanesections[connecting_lanesec].leftlanes:
             # do left lanes
-            for i in range(len(connecting.lanes.lanesections[road_lanesection_id].leftlanes)):
-                linkid = road.lanes.lanesections[road_lanesection_id].leftlanes[i].lane_id*sign
+            for i in range(len(connecting.lanes.lanesections[connecting_lanesec].leftlanes)):
+                linkid = connecting.lanes.lanesections[connecting_lanesec].leftlanes[i].lane_id*sign
                 if linktype == 'predecessor':
                     linkid += connecting.lane_offset_pred
                 else:
@@ -502,7 +500,7 @@ def _create_links_connecting_road(connecting,road):
         if connecting.lanes.lanesections[connecting_lanesec].rightlanes:
             # do right lanes
             for i in range(len(connecting.lanes.lanesections[connecting_lanesec].rightlanes)):
-                linkid = road.lanes.lanesections[road_lanesection_id].rightlanes[i].lane_id*sign
+                linkid = connecting.lanes.lanesections[connecting_lanesec].rightlanes[i].lane_id*sign
                 if linktype == 'predecessor':
                     linkid += connecting.lane_offset_pred
                 else:
@@ -548,17 +546,17 @@ def _get_related_lanesection(road,connected_road):
             sign = 1
         road_lanesection_id = 0
 
-    if connected_road.road_type != -1:
-        # treat connecting road in junction differently 
-        if connected_road.predecessor.element_id == road.id:
-            if connected_road.predecessor.link_type == ContactPoint.start:
-                road_lanesection_id = -1
+    if linktype is None and connected_road.road_type != -1:
+        # treat connecting road in junction differently (the road itself is only linked to the junction)
+        if connected_road.predecessor and connected_road.predecessor.element_id == road.id:
+            if connected_road.predecessor.contact_point == ContactPoint.start:
+                road_lanesection_id = 0
                 sign = -1
             else:
-                road_lanesection_id = 0
+                road_lanesection_id = -1
                 sign = 1
-        elif connected_road.successor.element_id == road.id:
-            if connected_road.predecessor.link_type == ContactPoint.start:
+        elif connected_road.successor and connected_road.successor.element_id == road.id:
+            if connected_road.successor.contact_point == ContactPoint.start:
                 road_lanesection_id = 0
                 sign = 1
             else:
-- 
2.43.0


From bae65ac0e824511e18ea5c397b8392af6dcb4d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 09/18] fix: create_junction links the lanes of the incoming
 road to those of the connecting road

---
 pyodrx/generators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index aab3061..8a8cd50 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -328,7 +328,7 @@ def _create_junction_links(connection, nlanes,r_or_l,sign,from_offset=0,to_offse
                 Default: 0
     """
     for i in range(1, nlanes+1, 1):
-        connection.add_lanelink( r_or_l*i+from_offset, r_or_l*sign*i+to_offset)
+        connection.add_lanelink( r_or_l*sign*i+from_offset, r_or_l*i+to_offset)
 
 
 def create_junction(junction_roads, id, roads):
@@ -358,8 +358,8 @@ def create_junction(junction_roads, id, roads):
         conne1 = Connection(jr.successor.element_id,jr.id,ContactPoint.end) 
         _, sign, _ =  _get_related_lanesection(jr,get_road_by_id(roads,jr.successor.element_id) ) 
 
-        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].rightlanes),-1,sign,to_offset=jr.lane_offset_suc)
-        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].leftlanes),1,sign,to_offset=jr.lane_offset_suc)
+        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].rightlanes),-1,sign,from_offset=jr.lane_offset_suc)
+        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].leftlanes),1,sign,from_offset=jr.lane_offset_suc)
         junc.add_connection(conne1)
 
         # handle predecessor lanes
-- 
2.43.0


From eb76b9d242b87c3a62796380303b4dcd578dd104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 10/18] fix: junction links are not looked up as roads when
 placing the road network

---
 pyodrx/opendrive.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index 39f0fc6..1a0dc48 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -501,8 +501,8 @@ class OpenDrive():
 
                     # check if it has a normal (road) predecessor 
                     if self.roads[k].predecessor is not None and \
-                        self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is True and \
-                        self.roads[k].predecessor.element_type is not ElementType.junction: 
+                        self.roads[k].predecessor.element_type is not ElementType.junction and \
+                        self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is True: 
 
                         print('  Adjusting {}road {} to predecessor {}'.\
                             format('' if self.roads[k].road_type == -1 else 'connecting ', self.roads[k].id, self.roads[k].predecessor.element_id))
@@ -510,7 +510,7 @@ class OpenDrive():
                                                     self.roads[k].predecessor.contact_point, 'predecessor')
                         count_adjusted_roads +=1
 
-                        if self.roads[k].road_type != -1 and self.roads[k].successor is not None and self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is False:
+                        if self.roads[k].road_type != -1 and self.roads[k].successor is not None and self.roads[k].successor.element_type is not ElementType.junction and self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is False:
                             succ_id = self.roads[k].successor.element_id
                             print('    Adjusting successor connecting road {} in junction {} to road {} '.\
                                 format(succ_id, self.roads[k].road_type, self.roads[k].id))
@@ -522,8 +522,8 @@ class OpenDrive():
 
                     # check if geometry has a normal (road) successor 
                     elif self.roads[k].successor is not None and \
-                        self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is True and \
-                        self.roads[k].successor.element_type is not ElementType.junction: 
+                        self.roads[k].successor.element_type is not ElementType.junction and \
+                        self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is True: 
 
                         print('  Adjusting {}successor {} to road {}'.\
                             format('' if self.roads[k].road_type == -1 else 'connecting ', self.roads[k].id, self.roads[k].successor.element_id))
@@ -531,7 +531,7 @@ class OpenDrive():
                                                     self.roads[k].successor.contact_point, 'successor')
                         count_adjusted_roads +=1
 
-                        if self.roads[k].road_type != -1 and self.roads[k].predecessor is not None and self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is False:
+                        if self.roads[k].road_type != -1 and self.roads[k].predecessor is not None and self.roads[k].predecessor.element_type is not ElementType.junction and self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is False:
                             pred_id = self.roads[k].predecessor.element_id
                             print('    Adjusting predecessor connecting road {} in junction {} to road {} '.\
                                 format(pred_id, self.roads[k].road_type, self.roads[k].id))
-- 
2.43.0


From f3b42bf002fabbd424ca7c1e3e081f00fa17b982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 11/18] fix: RoadMark keeps the given space for mark types
 without defaults

---
 pyodrx/lane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyodrx/lane.py b/pyodrx/lane.py
index 7b96b28..ac502e7 100644
--- a/pyodrx/lane.py
+++ b/pyodrx/lane.py
@@ -537,7 +537,7 @@ class RoadMark():
             #create empty line if arguments are missing
             else: 
                 self.length = length or 0
-                self.space = length or 0
+                self.space = space or 0
                 print ("No defaults for arguments 'space' and 'length' for roadmark type", enum2str(marking_type), "available and no values were passed. Creating an empty roadmark.")
             #set remaining defaults
             self.width = width or 0.2
-- 
2.43.0


From 90cd43dba36a929eaa5be34c292bf3b0e3428a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 12/18] fix: Junction does not reuse the id of an earlier
 connection

---
 pyodrx/links.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index b3afd06..ad89ba5 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -409,6 +409,9 @@ class Junction():
                 connection (Connection): adds a connection to the junction
 
         """
+        used_ids = [str(con.id) for con in self.connections]
+        while str(self._id_counter) in used_ids:
+            self._id_counter += 1
         connection._set_id(self._id_counter)
         self._id_counter += 1
         self.connections.append(connection)
-- 
2.43.0


From 905d3063e5ab72c499aa04e82cd04dbcc9f4818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 13/18] fix: Road.get_end_point returns the end of the road
 also when it was placed from its end

---
 pyodrx/opendrive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index 1a0dc48..4b4bede 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -301,7 +301,7 @@ class Road():
                 h (float): the end heading
 
         """
-        return self.planview.present_x, self.planview.present_y, self.planview.present_h
+        return self.planview.get_end_point()
     def get_attributes(self):
         """ returns the attributes as a dict of the Road
 
-- 
2.43.0


From 2fb996218d65cf80a09de26ca291afbc729cf344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 14/18] fix: Object without subtype does not emit the subtype
 None

---
 pyodrx/signals_objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyodrx/signals_objects.py b/pyodrx/signals_objects.py
index a916196..62e2df7 100644
--- a/pyodrx/signals_objects.py
+++ b/pyodrx/signals_objects.py
@@ -127,7 +127,8 @@ class _SignalObjectBase():
             retdict['id'] = str(self.id)
             retdict['s'] = str(self.s)
             retdict['t'] = str(self.t)
-            retdict['subtype'] = str(self.subtype)
+            if self.subtype is not None:
+                retdict['subtype'] = str(self.subtype)
             retdict['dynamic'] = enum2str(self.dynamic)
             retdict['zOffset'] = str(self.zOffset)
             if self.pitch:
-- 
2.43.0


From c7ed9f77414ec870359237a315033d5fe941cf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 15/18] fix: repeated Object without height does not emit the
 heights None

---
 pyodrx/signals_objects.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyodrx/signals_objects.py b/pyodrx/signals_objects.py
index 62e2df7..99cefac 100644
--- a/pyodrx/signals_objects.py
+++ b/pyodrx/signals_objects.py
@@ -455,16 +455,16 @@ class Object(_SignalObjectBase):
             infoFallback(self.id, 'tEnd')
         else:
             self._repeats[-1]['tEnd']=str(tEnd)
-        if heightStart == None and self.height != None:
+        if heightStart != None:
+            self._repeats[-1]['heightStart']=str(heightStart)
+        elif self.height != None:
             self._repeats[-1]['heightStart']=str(self.height)
             infoFallback(self.id, 'heightStart')
-        else:
-            self._repeats[-1]['heightStart']=str(heightStart)
-        if heightEnd == None and self.height != None:
+        if heightEnd != None:
+            self._repeats[-1]['heightEnd']=str(heightEnd)
+        elif self.height != None:
             self._repeats[-1]['heightEnd']=str(self.height)
             infoFallback(self.id, 'heightEnd')
-        else:
-            self._repeats[-1]['heightEnd']=str(heightEnd)
         if zOffsetStart == None:
             self._repeats[-1]['zOffsetStart']=str(self.zOffset)
             infoFallback(self.id, 'zOffsetStart')
-- 
2.43.0


From ae757b02d3a95408d7e76481b88b6b715536bbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 16/18] fix: printToFile writes utf-8 independent of the locale

---
 pyodrx/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyodrx/helpers.py b/pyodrx/helpers.py
index 892fb5c..240402c 100644
--- a/pyodrx/helpers.py
+++ b/pyodrx/helpers.py
@@ -68,7 +68,7 @@ def printToFile(element,filename,prettyprint=True):
         rough = ET.tostring(element,'utf-8').replace(b'\n',b'').replace(b'\t',b'')
         reparsed = mini.parseString(rough)
         towrite = reparsed.toprettyxml(indent="\t")
-        with open(filename,'w') as file_handle:
+        with open(filename,'w',encoding='utf-8') as file_handle:
             file_handle.write(towrite)
     else:
         tree = ET.ElementTree(element)
-- 
2.43.0


From 248de53fb4d42f57ca9898df5ab89fcb52a99804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:11 +0000
Subject: [PATCH 17/18] fix: create_junction: sign of the lane links at the
 start of a road that leads back to the same road

---
 pyodrx/generators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index 8a8cd50..3caf54a 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -364,7 +364,8 @@ def create_junction(junction_roads, id, roads):
 
         # handle predecessor lanes
         conne2 = Connection(jr.predecessor.element_id,jr.id,ContactPoint.start)
-        _, sign, _ =  _get_related_lanesection( jr,get_road_by_id(roads,jr.predecessor.element_id)) 
+        # the predecessor's own contact point, as the successor can be the same road
+        sign = -1 if jr.predecessor.contact_point == ContactPoint.start else 1
         _create_junction_links(conne2,len(jr.lanes.lanesections[0].rightlanes),-1,sign,from_offset=jr.lane_offset_pred)
         _create_junction_links(conne2,len(jr.lanes.lanesections[0].leftlanes),1,sign,from_offset=jr.lane_offset_pred)
         junc.add_connection(conne2)
-- 
2.43.0


From cd8a2ac5f593f66cb35bd4c2753cc15f7fdf0ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:51 +0000
Subject: [PATCH 18/18] fix: a connecting road gets no lane links without type
 from a road that only names it

---
 pyodrx/links.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index ad89ba5..b4b9822 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -489,7 +489,8 @@ def _create_links_connecting_road(connecting,road):
 
     """
     linktype, sign, connecting_lanesec =  _get_related_lanesection(connecting,road)
-    if connecting_lanesec != None:
+    # without a linktype, only the other road names this one
+    if linktype != None:
         if connecting.lanes.lanesections[connecting_lanesec].leftlanes:
             # do left lanes
             for i in range(len(connecting.lanes.lanesections[connecting_lanesec].leftlanes)):
-- 
2.43.0

