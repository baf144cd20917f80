From f96d97c64560910a960a32b0e214cc2efddf8d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 01/23] fix: write pretty-printed documents as utf-8 whatever
 the locale

---
 pyodrx/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyodrx/helpers.py b/pyodrx/helpers.py
index 892fb5c..8b93b3d 100644
--- a/pyodrx/helpers.py
+++ b/pyodrx/helpers.py
@@ -68,7 +68,8 @@ def printToFile(element,filename,prettyprint=True):
         rough = ET.tostring(element,'utf-8').replace(b'\n',b'').replace(b'\t',b'')
         reparsed = mini.parseString(rough)
         towrite = reparsed.toprettyxml(indent="\t")
-        with open(filename,'w') as file_handle:
+        # the document has no encoding declaration, i.e. it is utf-8 whatever the locale says
+        with open(filename,'w',encoding='utf-8') as file_handle:
             file_handle.write(towrite)
     else:
         tree = ET.ElementTree(element)
-- 
2.43.0


From f8c92bcd6482dbe9ecdbb15755b864b78966ee66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 02/23] fix: serialise compact documents before truncating the
 target file

---
 pyodrx/helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyodrx/helpers.py b/pyodrx/helpers.py
index 8b93b3d..7111e6b 100644
--- a/pyodrx/helpers.py
+++ b/pyodrx/helpers.py
@@ -72,6 +72,7 @@ def printToFile(element,filename,prettyprint=True):
         with open(filename,'w',encoding='utf-8') as file_handle:
             file_handle.write(towrite)
     else:
-        tree = ET.ElementTree(element)
+        # serialise before touching the file, an element that cannot be serialised must not cost an existing file
+        towrite = ET.tostring(element)
         with open(filename,"wb") as file_handle:
-            tree.write(file_handle)
\ No newline at end of file
+            file_handle.write(towrite)
\ No newline at end of file
-- 
2.43.0


From baff8b0cd1014b907cf89bb65d6b91373a30debc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 03/23] fix: keep the space given for road marks other than
 solid and broken

---
 pyodrx/lane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyodrx/lane.py b/pyodrx/lane.py
index 7b96b28..ac502e7 100644
--- a/pyodrx/lane.py
+++ b/pyodrx/lane.py
@@ -537,7 +537,7 @@ class RoadMark():
             #create empty line if arguments are missing
             else: 
                 self.length = length or 0
-                self.space = length or 0
+                self.space = space or 0
                 print ("No defaults for arguments 'space' and 'length' for roadmark type", enum2str(marking_type), "available and no values were passed. Creating an empty roadmark.")
             #set remaining defaults
             self.width = width or 0.2
-- 
2.43.0


From 2ca4068e61306ffc5a5a3006f1d96d92b9623042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 04/23] fix: arcs answer the same whatever they were asked
 before

---
 pyodrx/geometry.py | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 0ab0729..f03dea2 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -580,6 +580,10 @@ class Arc():
         if curvature == 0:
             raise ValueError('You are creating a straight line, please use Line instead')
         self.curvature = curvature
+        # length and angle are settled here, so that no query changes what later queries answer
+        if self.length is None:
+            self.length = np.abs(self.angle/self.curvature)
+        self.angle = self.length * self.curvature
 
     def get_end_data(self,x,y,h):
         """ Returns information about the end point of the geometry
@@ -615,15 +619,7 @@ class Arc():
             x_0 = x - np.cos(phi_0)*radius
             y_0 = y - np.sin(phi_0)*radius
 
-        if self.length:
-            self.angle = self.length * self.curvature
-
         new_ang = self.angle + phi_0
-        if self.angle:         
-            self.length = np.abs(radius*self.angle)
-
-            
-
         new_h = h + self.angle
         new_x = np.cos(new_ang)*radius + x_0
         new_y = np.sin(new_ang)*radius + y_0
@@ -669,18 +665,11 @@ class Arc():
             x_0 = x - np.cos(phi_0)*radius
             y_0 = y - np.sin(phi_0)*radius
 
-        if self.length:
-            self.angle = self.length * inv_curv
-
-        new_ang = self.angle + phi_0
-        if self.angle:         
-            self.length = np.abs(radius*self.angle)
-
-            
-        
-        print('self andgle is ', self.angle )
+        angle = self.length * inv_curv
+        new_ang = angle + phi_0
+        print('self andgle is ', angle )
         print('h is ', h)
-        new_h = h + self.angle
+        new_h = h + angle
         new_x = np.cos(new_ang)*radius + x_0
         new_y = np.sin(new_ang)*radius + y_0
 
-- 
2.43.0


From f9e6194a4cd731344a0da9dde42cc1e3542a8bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 05/23] fix: start of a ParamPoly3 seen from its end

---
 pyodrx/geometry.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index f03dea2..fb07b48 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -813,13 +813,13 @@ class ParamPoly3():
 
             y (float): y end point of the geometry
 
-            h (float): end heading of the geometry
+            h (float): end heading of the geometry, seen from the end (i.e. reversed)
 
         Returns
         ---------
             x (float): the start x point
             y (float): the start y point
-            h (float): the start heading
+            h (float): the start heading of the inverse geometry
             length (float): the length of the geometry
 
         """
@@ -832,9 +832,10 @@ class ParamPoly3():
         newu = self.au + self.bu*p + self.cu*p**2 + self.du*p**3
         newv = self.av + self.bv*p + self.cv*p**2 + self.dv*p**3
 
-        new_x = x - (newu*np.cos(h)-np.sin(h)*newv)
-        new_y = y - (newu*np.sin(h)+np.cos(h)*newv)
         new_h = h - np.arctan2(self.bv + 2*self.cv*p + 3*self.dv*p**2,self.bu + 2*self.cu*p + 3*self.du*p**2)
+        # new_h is opposite to the start heading, hence the signs
+        new_x = x + newu*np.cos(new_h)-np.sin(new_h)*newv
+        new_y = y + newu*np.sin(new_h)+np.cos(new_h)*newv
 
         return new_x, new_y, new_h, self.length
     def get_end_data(self,x,y,h):
-- 
2.43.0


From 0686610916ff60b7952a59a94ce7ef5f945027b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 06/23] fix: order and s of the geometries of a road placed
 from its end

---
 pyodrx/geometry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index fb07b48..ff2c73f 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -277,8 +277,9 @@ class PlanView():
 
                 newgeom = _Geometry(self.present_s,self.present_x,self.present_y,self.present_h,self._raw_geometries[i])
                 self.present_x,self.present_y,self.present_h, partial_length = newgeom.get_start_data()
-                lengths.append(partial_length)
-                self._adjusted_geometries.append(newgeom)                  
+                # the chain is walked backwards, but stored from start to end
+                lengths.insert(0,partial_length)
+                self._adjusted_geometries.insert(0,newgeom)
 
             self.x_start = self.present_x
             self.y_start = self.present_y
@@ -289,7 +290,7 @@ class PlanView():
              
             for i in range(len(self._raw_geometries)):
 
-                newgeom.set_s(self.present_s)
+                self._adjusted_geometries[i].set_s(self.present_s)
                 self.present_s += lengths[i]  
 
         self.adjusted = True
-- 
2.43.0


From 07036655552c249732c7522b6bb1520aed2feea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 07/23] fix: adjusting the geometries of a planview again
 starts from scratch

---
 pyodrx/geometry.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index ff2c73f..11cba26 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -155,6 +155,7 @@ class PlanView():
         self.present_y = 0
         self.present_h = 0
         self.present_s = 0
+        self._requested_start = (0, 0, 0)
         self.fixed = False
         if all([x_start != None, y_start!=None,h_start!=None]):
             self.set_start_point(x_start, y_start, h_start)
@@ -210,6 +211,7 @@ class PlanView():
         self.present_x = x_start
         self.present_y = y_start
         self.present_h = h_start
+        self._requested_start = (x_start, y_start, h_start)
 
     def get_start_point(self):
         """ returns the start point of the planview
@@ -246,7 +248,11 @@ class PlanView():
             from_end ([optional]bool): states if (self.present_x, self.present_y, self.present_h) are being interpreted as starting point or ending point of the geometry
 
         """
-        
+        # always begin with the requested pose, a previous (possibly failed) adjustment must not show
+        self.present_x, self.present_y, self.present_h = self._requested_start
+        self.present_s = 0
+        self._adjusted_geometries = []
+
         if from_end== False:
             self.x_start = self.present_x
             self.y_start = self.present_y
-- 
2.43.0


From 2b2d957c8b26e7df01192b6f86d43e4af82b0a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 08/23] fix: junction ids and roads not added do not break the
 adjustment of the network

---
 pyodrx/opendrive.py | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index 39f0fc6..546a0b0 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -458,6 +458,34 @@ class OpenDrive():
             main_road.planview.adjust_geometries(True)
 
 
+    def _get_linked_road(self,link):
+        """ returns the road a link leads to
+
+            Parameters
+            ----------
+                link (_Link): the link (can be None)
+
+            Return
+            ------
+                road (Road): the linked road, None if there is no link, the link leads to a junction,
+                    or the linked road has not been added (ids of junctions and roads can be equal)
+        """
+        if link is None or link.element_type is ElementType.junction:
+            return None
+        return self.roads.get(str(link.element_id))
+
+    def _is_adjusted(self,link):
+        """ True if the link leads to a road that already is adjusted
+        """
+        road = self._get_linked_road(link)
+        return road is not None and road.planview.adjusted is True
+
+    def _is_waiting(self,link):
+        """ True if the link leads to a road that is yet to be adjusted
+        """
+        road = self._get_linked_road(link)
+        return road is not None and road.planview.adjusted is False
+
     def adjust_startpoints(self): 
         """ Adjust starting position of all geoemtries of all roads
 
@@ -485,7 +513,7 @@ class OpenDrive():
 
 
         # If no roads are fixed, select the first road is selected as the pivot-road
-        if fixed_road is False: 
+        if fixed_road is False and len(self.roads) > 0: 
             self.roads[list(self.roads.keys())[0]].planview.adjust_geometries()
             print('Selecting and adjusting the first road {}'.format(self.roads[list(self.roads.keys())[0] ].id))
             count_total_adjusted_roads += 1
@@ -500,9 +528,7 @@ class OpenDrive():
                 if self.roads[k].planview.adjusted is False: 
 
                     # check if it has a normal (road) predecessor 
-                    if self.roads[k].predecessor is not None and \
-                        self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is True and \
-                        self.roads[k].predecessor.element_type is not ElementType.junction: 
+                    if self._is_adjusted(self.roads[k].predecessor):
 
                         print('  Adjusting {}road {} to predecessor {}'.\
                             format('' if self.roads[k].road_type == -1 else 'connecting ', self.roads[k].id, self.roads[k].predecessor.element_id))
@@ -510,7 +536,7 @@ class OpenDrive():
                                                     self.roads[k].predecessor.contact_point, 'predecessor')
                         count_adjusted_roads +=1
 
-                        if self.roads[k].road_type != -1 and self.roads[k].successor is not None and self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is False:
+                        if self.roads[k].road_type != -1 and self._is_waiting(self.roads[k].successor):
                             succ_id = self.roads[k].successor.element_id
                             print('    Adjusting successor connecting road {} in junction {} to road {} '.\
                                 format(succ_id, self.roads[k].road_type, self.roads[k].id))
@@ -521,9 +547,7 @@ class OpenDrive():
                             count_adjusted_roads +=1
 
                     # check if geometry has a normal (road) successor 
-                    elif self.roads[k].successor is not None and \
-                        self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is True and \
-                        self.roads[k].successor.element_type is not ElementType.junction: 
+                    elif self._is_adjusted(self.roads[k].successor):
 
                         print('  Adjusting {}successor {} to road {}'.\
                             format('' if self.roads[k].road_type == -1 else 'connecting ', self.roads[k].id, self.roads[k].successor.element_id))
@@ -531,7 +555,7 @@ class OpenDrive():
                                                     self.roads[k].successor.contact_point, 'successor')
                         count_adjusted_roads +=1
 
-                        if self.roads[k].road_type != -1 and self.roads[k].predecessor is not None and self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is False:
+                        if self.roads[k].road_type != -1 and self._is_waiting(self.roads[k].predecessor):
                             pred_id = self.roads[k].predecessor.element_id
                             print('    Adjusting predecessor connecting road {} in junction {} to road {} '.\
                                 format(pred_id, self.roads[k].road_type, self.roads[k].id))
-- 
2.43.0


From dc3bff8ea31e46f7771308423f9548f2b36a0a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 09/23] fix: neighbours of a connecting road are placed with
 its lane offset, also when it is placed first

---
 pyodrx/opendrive.py | 55 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index 546a0b0..997d144 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -409,7 +409,7 @@ class OpenDrive():
             create_lane_links(self.roads[results[r][0]],self.roads[results[r][1]])  
 
 
-    def adjust_road_wrt_neighbour(self, road_id, neighbour_id, contact_point, neighbour_type):
+    def adjust_road_wrt_neighbour(self, road_id, neighbour_id, contact_point, neighbour_type, num_lane_offsets=None):
         """ Adjust geometries of road[road_id] taking as a successor/predecessor the neighbouring road with id neighbour_id.
             NB Passing the type of contact_point is necessary because we call this function also on roads connecting to 
             to a junction road (which means that the road itself do not know the contact point of the junction road it connects to)
@@ -425,6 +425,8 @@ class OpenDrive():
             
             neighbour_type(str): 'successor'/'predecessor' type of linking to the neighbouring road
 
+            num_lane_offsets(int): number of lanes the road is displaced by
+                Default: the lane offset of the road's own link
 
         """
 
@@ -437,7 +439,8 @@ class OpenDrive():
                 h = h + np.pi #we are attached to the predecessor's start, so road[k] will start in its opposite direction 
             elif contact_point == ContactPoint.end:
                 x,y,h = self.roads[str(neighbour_id)].planview.get_end_point()
-            num_lane_offsets = main_road.lane_offset_pred
+            if num_lane_offsets is None:
+                num_lane_offsets = main_road.lane_offset_pred
             x = -num_lane_offsets*3*np.sin(h) + x
             y = num_lane_offsets*3*np.cos(h) + y
 
@@ -451,7 +454,8 @@ class OpenDrive():
                 h = h + np.pi #we are attached to the predecessor's start, so road[k] will start in its opposite direction 
             elif contact_point == ContactPoint.end:
                 x,y,h = self.roads[str(neighbour_id)].planview.get_end_point()
-            num_lane_offsets = main_road.lane_offset_suc
+            if num_lane_offsets is None:
+                num_lane_offsets = main_road.lane_offset_suc
             x = num_lane_offsets*3*np.sin(h) + x
             y = -num_lane_offsets*3*np.cos(h) + y
             main_road.planview.set_start_point(x,y,h)
@@ -486,6 +490,32 @@ class OpenDrive():
         road = self._get_linked_road(link)
         return road is not None and road.planview.adjusted is False
 
+    def _adjust_successor_of_connecting_road(self,road_id):
+        """ places the successor of an already adjusted connecting road, the lane offset is declared on the connecting road
+
+            Parameters
+            ----------
+                road_id (int): id of the connecting road
+        """
+        road = self.roads[str(road_id)]
+        if road.successor.contact_point == ContactPoint.start:
+            self.adjust_road_wrt_neighbour(road.successor.element_id, road_id, ContactPoint.end, 'predecessor', -road.lane_offset_suc)
+        else:
+            self.adjust_road_wrt_neighbour(road.successor.element_id, road_id, ContactPoint.end, 'successor', road.lane_offset_suc)
+
+    def _adjust_predecessor_of_connecting_road(self,road_id):
+        """ places the predecessor of an already adjusted connecting road, the lane offset is declared on the connecting road
+
+            Parameters
+            ----------
+                road_id (int): id of the connecting road
+        """
+        road = self.roads[str(road_id)]
+        if road.predecessor.contact_point == ContactPoint.start:
+            self.adjust_road_wrt_neighbour(road.predecessor.element_id, road_id, ContactPoint.start, 'predecessor', road.lane_offset_pred)
+        else:
+            self.adjust_road_wrt_neighbour(road.predecessor.element_id, road_id, ContactPoint.start, 'successor', -road.lane_offset_pred)
+
     def adjust_startpoints(self): 
         """ Adjust starting position of all geoemtries of all roads
 
@@ -540,10 +570,7 @@ class OpenDrive():
                             succ_id = self.roads[k].successor.element_id
                             print('    Adjusting successor connecting road {} in junction {} to road {} '.\
                                 format(succ_id, self.roads[k].road_type, self.roads[k].id))
-                            if self.roads[k].successor.contact_point == ContactPoint.start:
-                                self.adjust_road_wrt_neighbour(succ_id, k, ContactPoint.end, 'predecessor')
-                            else:
-                                self.adjust_road_wrt_neighbour(succ_id, k, ContactPoint.end, 'successor')
+                            self._adjust_successor_of_connecting_road(k)
                             count_adjusted_roads +=1
 
                     # check if geometry has a normal (road) successor 
@@ -559,11 +586,17 @@ class OpenDrive():
                             pred_id = self.roads[k].predecessor.element_id
                             print('    Adjusting predecessor connecting road {} in junction {} to road {} '.\
                                 format(pred_id, self.roads[k].road_type, self.roads[k].id))
-                            if self.roads[k].predecessor.contact_point == ContactPoint.start:
-                                self.adjust_road_wrt_neighbour(pred_id, k, ContactPoint.start, 'predecessor')
-                            else:
-                                self.adjust_road_wrt_neighbour(pred_id, k, ContactPoint.start, 'successor')
+                            self._adjust_predecessor_of_connecting_road(k)
                             count_adjusted_roads +=1
+
+                elif self.roads[k].road_type != -1:
+                    # a connecting road that was not adjusted to a neighbour (fixed, or the first road) still has to place its neighbours
+                    if self._is_waiting(self.roads[k].predecessor):
+                        self._adjust_predecessor_of_connecting_road(k)
+                        count_adjusted_roads +=1
+                    if self._is_waiting(self.roads[k].successor):
+                        self._adjust_successor_of_connecting_road(k)
+                        count_adjusted_roads +=1
             
             count_total_adjusted_roads += count_adjusted_roads
 
-- 
2.43.0


From e20aed744e00fc49401af26f40760309dc557291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 10/23] fix: the network can be adjusted again after a failure
 or with more roads

---
 pyodrx/opendrive.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index 997d144..f37e0b7 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -517,11 +517,24 @@ class OpenDrive():
             self.adjust_road_wrt_neighbour(road.predecessor.element_id, road_id, ContactPoint.start, 'successor', -road.lane_offset_pred)
 
     def adjust_startpoints(self): 
-        """ Adjust starting position of all geoemtries of all roads
+        """ Adjust starting position of all geoemtries of all roads, roads that already are adjusted stay where they are
 
             Parameters
             ----------
 
+        """
+        waiting = [k for k in self.roads if self.roads[k].planview.adjusted is False]
+        try:
+            self._adjust_startpoints()
+        except BaseException:
+            # a half adjusted network can not be told from an adjusted one, so start over next time
+            for k in waiting:
+                self.roads[k].planview.adjusted = False
+            raise
+
+    def _adjust_startpoints(self):
+        """ see adjust_startpoints
+
         """
         
         # Adjust logically connected roads, i.e. move them so they connect geometrically. 
@@ -535,7 +548,11 @@ class OpenDrive():
         count_total_adjusted_roads = 0
         fixed_road = False
         for k in self.roads:
-            if self.roads[k].planview.fixed:
+            if self.roads[k].planview.adjusted:
+                # from an earlier adjustment
+                count_total_adjusted_roads += 1
+                fixed_road = True
+            elif self.roads[k].planview.fixed:
                 self.roads[k].planview.adjust_geometries()
                 # print('Fixing Road: ' + k)
                 count_total_adjusted_roads += 1
-- 
2.43.0


From 76670b4e158a1e975443793799e2e18e417f056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 11/23] fix: end point of roads placed from their end

---
 pyodrx/opendrive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index f37e0b7..f3f5671 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -301,7 +301,7 @@ class Road():
                 h (float): the end heading
 
         """
-        return self.planview.present_x, self.planview.present_y, self.planview.present_h
+        return self.planview.get_end_point()
     def get_attributes(self):
         """ returns the attributes as a dict of the Road
 
-- 
2.43.0


From 52643a15f44e05b522fb5e6263c5436190f9ced1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 12/23] fix: allocate ids of objects and signals under a lock

---
 pyodrx/signals_objects.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/pyodrx/signals_objects.py b/pyodrx/signals_objects.py
index a916196..38fd919 100644
--- a/pyodrx/signals_objects.py
+++ b/pyodrx/signals_objects.py
@@ -1,3 +1,4 @@
+import threading
 import xml.etree.ElementTree as ET
 from .helpers import enum2str
 from .enumerations import ObjectType, Orientation, Dynamic 
@@ -52,6 +53,7 @@ class _SignalObjectBase():
         
     _usedIDs = {}
     _IDCounter = {}
+    _IDLock = threading.RLock()
 
     def __init__(self,s,t,id,Type,subtype,dynamic,name,zOffset,orientation,pitch,roll,width,height):
         """ initalizes common attributes for Signal and Object
@@ -101,21 +103,23 @@ class _SignalObjectBase():
         
     def _update_id(self):
         #ensure unique IDs
-        try:
-            if str(self.id) in self._usedIDs[self.__class__.__name__]:
-                print ("Warning: id",self.id,"has already been used for another",self.__class__.__name__,"...auto-generating unique id.")
+        #the used ids are shared by all roads, hence by all threads
+        with self._IDLock:
+            try:
+                if str(self.id) in self._usedIDs[self.__class__.__name__]:
+                    print ("Warning: id",self.id,"has already been used for another",self.__class__.__name__,"...auto-generating unique id.")
+                    
+            except KeyError:
+                self._usedIDs[self.__class__.__name__]=[]
+                self._IDCounter[self.__class__.__name__]=0
                 
-        except KeyError:
-            self._usedIDs[self.__class__.__name__]=[]
-            self._IDCounter[self.__class__.__name__]=0
             
+            if self.id == None or (str(self.id) in self._usedIDs[self.__class__.__name__]):
+                while (str(self._IDCounter[self.__class__.__name__]) in self._usedIDs[self.__class__.__name__]):
+                    self._IDCounter[self.__class__.__name__]+=1
+                self.id = str(self._IDCounter[self.__class__.__name__])             
         
-        if self.id == None or (str(self.id) in self._usedIDs[self.__class__.__name__]):
-            while (str(self._IDCounter[self.__class__.__name__]) in self._usedIDs[self.__class__.__name__]):
-                self._IDCounter[self.__class__.__name__]+=1
-            self.id = str(self._IDCounter[self.__class__.__name__])             
-    
-        self._usedIDs[self.__class__.__name__].append(str(self.id))
+            self._usedIDs[self.__class__.__name__].append(str(self.id))
         
         
         
-- 
2.43.0


From dc9c43199609f45e22af6524916579e41e3a4df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 13/23] fix: lane links and junctions find linked roads
 whatever the type of the ids

---
 pyodrx/generators.py |  2 +-
 pyodrx/links.py      | 21 ++++++++++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index fa50d33..fd85442 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -386,5 +386,5 @@ def get_road_by_id(roads,id):
             Road
     """
     for r in roads:
-        if r.id == id:
+        if str(r.id) == str(id):
             return r
\ No newline at end of file
diff --git a/pyodrx/links.py b/pyodrx/links.py
index 5f3bfce..650fa17 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -434,11 +434,22 @@ class Junction():
 #from .exceptions import NotSameAmountOfLanesError
 from .enumerations import ContactPoint
 
+def _leads_to(link, road):
+    """ _leads_to tells if a link leads to a road (a junction can have the same id as a road)
+
+        Parameters
+        ----------
+            link (_Link): the link (can be None)
+
+            road (Road): the road
+    """
+    return link is not None and link.element_type is not ElementType.junction and str(link.element_id) == str(road.id)
+
 def are_roads_consecutive(road1, road2): 
 
     if road1.successor is not None and road2.predecessor is not None: 
         if road1.successor.element_type == ElementType.road and road2.predecessor.element_type == ElementType.road:
-            if road1.successor.element_id == road2.id and road2.predecessor.element_id == road1.id: 
+            if str(road1.successor.element_id) == str(road2.id) and str(road2.predecessor.element_id) == str(road1.id): 
                 return True 
 
     return False
@@ -532,7 +543,7 @@ def _get_related_lanesection(road,connected_road):
     sign = None
     road_lanesection_id = None
  
-    if road.successor and road.successor.element_id == connected_road.id:
+    if _leads_to(road.successor, connected_road):
         linktype = 'successor'
         if road.successor.contact_point == ContactPoint.start:
             sign = 1
@@ -540,7 +551,7 @@ def _get_related_lanesection(road,connected_road):
             sign = -1
         road_lanesection_id = -1
 
-    elif road.predecessor and road.predecessor.element_id == connected_road.id:
+    elif _leads_to(road.predecessor, connected_road):
         linktype = 'predecessor'
         if road.predecessor.contact_point == ContactPoint.start:
             sign = -1
@@ -550,14 +561,14 @@ def _get_related_lanesection(road,connected_road):
 
     if connected_road.road_type != -1:
         # treat connecting road in junction differently 
-        if connected_road.predecessor.element_id == road.id:
+        if _leads_to(connected_road.predecessor, road):
             if connected_road.predecessor.link_type == ContactPoint.start:
                 road_lanesection_id = -1
                 sign = -1
             else:
                 road_lanesection_id = 0
                 sign = 1
-        elif connected_road.successor.element_id == road.id:
+        elif _leads_to(connected_road.successor, road):
             if connected_road.predecessor.link_type == ContactPoint.start:
                 road_lanesection_id = 0
                 sign = 1
-- 
2.43.0


From e99ef2236e0749e9e0be4fe828a2f3a70bcf25fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 14/23] fix: lanes are linked once, however often the network
 is adjusted

---
 pyodrx/links.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 650fa17..31dce6b 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -486,6 +486,22 @@ def create_lane_links(road1,road2):
 
         _create_links_connecting_road(road2,road1)
     
+def _add_link_once(lane, linktype, linkid):
+    """ _add_link_once adds a link to a lane, if the lane does not already have that very link
+
+        Parameters
+        ----------
+            lane (Lane): the lane to add the link to
+
+            linktype (str): successor or predecessor
+
+            linkid (int): id of the linked lane
+    """
+    for l in lane.links.links:
+        if l.link_type == linktype and str(l.element_id) == str(linkid):
+            return
+    lane.add_link(linktype,linkid)
+
 def _create_links_connecting_road(connecting,road):
     """ _create_links_connecting_road will create lane links between a connecting road and a normal road
 
@@ -508,7 +524,7 @@ def _create_links_connecting_road(connecting,road):
                     linkid += connecting.lane_offset_pred
                 else:
                     linkid += connecting.lane_offset_suc
-                connecting.lanes.lanesections[connecting_lanesec].leftlanes[i].add_link(linktype,linkid)
+                _add_link_once(connecting.lanes.lanesections[connecting_lanesec].leftlanes[i],linktype,linkid)
             
         if connecting.lanes.lanesections[connecting_lanesec].rightlanes:
             # do right lanes
@@ -518,7 +534,7 @@ def _create_links_connecting_road(connecting,road):
                     linkid += connecting.lane_offset_pred
                 else:
                     linkid += connecting.lane_offset_suc
-                connecting.lanes.lanesections[connecting_lanesec].rightlanes[i].add_link(linktype,linkid)
+                _add_link_once(connecting.lanes.lanesections[connecting_lanesec].rightlanes[i],linktype,linkid)
 
 
 def _get_related_lanesection(road,connected_road):
@@ -593,10 +609,10 @@ def _create_links_roads(pre_road,suc_road):
         for i in range(len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes)):
             linkid = pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes[i].lane_id*pre_sign
             print(linkid)
-            pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes[i].add_link(pre_linktype,linkid)
+            _add_link_once(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes[i],pre_linktype,linkid)
             
 
-            suc_road.lanes.lanesections[suc_connecting_lanesec].leftlanes[i].add_link(suc_linktype,linkid*pre_sign)
+            _add_link_once(suc_road.lanes.lanesections[suc_connecting_lanesec].leftlanes[i],suc_linktype,linkid*pre_sign)
     else:
         raise NotSameAmountOfLanesError('Road ' + str(pre_road.id) + ' and road ' + str(suc_road.id) + ' does not have the same number of right lanes.')
 
@@ -604,8 +620,8 @@ def _create_links_roads(pre_road,suc_road):
     if len(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes) == len(suc_road.lanes.lanesections[-1].rightlanes):
         for i in range(len(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes)):
             linkid = pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes[i].lane_id
-            pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes[i].add_link(pre_linktype,linkid)
-            suc_road.lanes.lanesections[suc_connecting_lanesec].rightlanes[i].add_link(suc_linktype,linkid)
+            _add_link_once(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes[i],pre_linktype,linkid)
+            _add_link_once(suc_road.lanes.lanesections[suc_connecting_lanesec].rightlanes[i],suc_linktype,linkid)
     else:
         raise NotSameAmountOfLanesError('Road ' + str(pre_road.id) + ' and road ' + str(suc_road.id) + ' does not have the same number of right lanes.')
 
-- 
2.43.0


From 6633a999520753e80bb2b9a617c7b7ef49a3ab63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 15/23] fix: link the lanes of the lane sections that touch, on
 both sides or not at all

---
 pyodrx/links.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 31dce6b..585b7a6 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -450,7 +450,8 @@ def are_roads_consecutive(road1, road2):
     if road1.successor is not None and road2.predecessor is not None: 
         if road1.successor.element_type == ElementType.road and road2.predecessor.element_type == ElementType.road:
             if str(road1.successor.element_id) == str(road2.id) and str(road2.predecessor.element_id) == str(road1.id): 
-                return True 
+                # two roads can be joined at both their ends, so look at the ends that meet as well
+                return road1.successor.contact_point is not ContactPoint.end and road2.predecessor.contact_point is not ContactPoint.start
 
     return False
 
@@ -469,7 +470,7 @@ def create_lane_links(road1,road2):
         #both are roads
         if are_roads_consecutive(road1, road2): 
             _create_links_roads(road1,road2)
-        elif are_roads_consecutive(road2, road1): 
+        if are_roads_consecutive(road2, road1): 
             _create_links_roads(road2,road1)
 
     # if road1.road_type == -1 and road2.road_type == -1:
@@ -603,9 +604,15 @@ def _create_links_roads(pre_road,suc_road):
             suc_road (Road): the successor road
 
     """
-    pre_linktype, pre_sign, pre_connecting_lanesec =  _get_related_lanesection(pre_road,suc_road)
-    suc_linktype, _, suc_connecting_lanesec =  _get_related_lanesection(suc_road,pre_road)
-    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes) == len(suc_road.lanes.lanesections[-1].leftlanes):
+    # the end of pre_road touches the start of suc_road
+    pre_linktype, pre_sign, pre_connecting_lanesec = 'successor', 1, -1
+    suc_linktype, suc_connecting_lanesec = 'predecessor', 0
+
+    # check both sides before linking any
+    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes) != len(suc_road.lanes.lanesections[suc_connecting_lanesec].rightlanes):
+        raise NotSameAmountOfLanesError('Road ' + str(pre_road.id) + ' and road ' + str(suc_road.id) + ' does not have the same number of right lanes.')
+
+    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes) == len(suc_road.lanes.lanesections[suc_connecting_lanesec].leftlanes):
         for i in range(len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes)):
             linkid = pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes[i].lane_id*pre_sign
             print(linkid)
@@ -614,10 +621,10 @@ def _create_links_roads(pre_road,suc_road):
 
             _add_link_once(suc_road.lanes.lanesections[suc_connecting_lanesec].leftlanes[i],suc_linktype,linkid*pre_sign)
     else:
-        raise NotSameAmountOfLanesError('Road ' + str(pre_road.id) + ' and road ' + str(suc_road.id) + ' does not have the same number of right lanes.')
+        raise NotSameAmountOfLanesError('Road ' + str(pre_road.id) + ' and road ' + str(suc_road.id) + ' does not have the same number of left lanes.')
 
 
-    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes) == len(suc_road.lanes.lanesections[-1].rightlanes):
+    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes) == len(suc_road.lanes.lanesections[suc_connecting_lanesec].rightlanes):
         for i in range(len(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes)):
             linkid = pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes[i].lane_id
             _add_link_once(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes[i],pre_linktype,linkid)
-- 
2.43.0


From 2ef91c0ccef321bafa8800198514664f1ed73cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 16/23] fix: connecting roads link their own lanes, at the end
 that touches the road

---
 pyodrx/links.py | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 585b7a6..53d5d7a 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -513,14 +513,12 @@ def _create_links_connecting_road(connecting,road):
             road (Road): a that connects to the connecting road
 
     """
-    linktype, sign, connecting_lanesec =  _get_related_lanesection(connecting,road)
-    _, _, road_lanesection_id =  _get_related_lanesection(road,connecting)
-
-    if connecting_lanesec != None:
+    # a connecting road can lead back to the road it comes from, so look at both of its ends
+    for linktype, sign, connecting_lanesec in _get_related_lanesections(connecting,road):
         if connecting.lanes.lanesections[connecting_lanesec].leftlanes:
             # do left lanes
-            for i in range(len(connecting.lanes.lanesections[road_lanesection_id].leftlanes)):
-                linkid = road.lanes.lanesections[road_lanesection_id].leftlanes[i].lane_id*sign
+            for i in range(len(connecting.lanes.lanesections[connecting_lanesec].leftlanes)):
+                linkid = connecting.lanes.lanesections[connecting_lanesec].leftlanes[i].lane_id*sign
                 if linktype == 'predecessor':
                     linkid += connecting.lane_offset_pred
                 else:
@@ -530,7 +528,7 @@ def _create_links_connecting_road(connecting,road):
         if connecting.lanes.lanesections[connecting_lanesec].rightlanes:
             # do right lanes
             for i in range(len(connecting.lanes.lanesections[connecting_lanesec].rightlanes)):
-                linkid = road.lanes.lanesections[road_lanesection_id].rightlanes[i].lane_id*sign
+                linkid = connecting.lanes.lanesections[connecting_lanesec].rightlanes[i].lane_id*sign
                 if linktype == 'predecessor':
                     linkid += connecting.lane_offset_pred
                 else:
@@ -579,14 +577,14 @@ def _get_related_lanesection(road,connected_road):
     if connected_road.road_type != -1:
         # treat connecting road in junction differently 
         if _leads_to(connected_road.predecessor, road):
-            if connected_road.predecessor.link_type == ContactPoint.start:
-                road_lanesection_id = -1
+            if connected_road.predecessor.contact_point == ContactPoint.start:
+                road_lanesection_id = 0
                 sign = -1
             else:
-                road_lanesection_id = 0
+                road_lanesection_id = -1
                 sign = 1
         elif _leads_to(connected_road.successor, road):
-            if connected_road.predecessor.link_type == ContactPoint.start:
+            if connected_road.successor.contact_point == ContactPoint.start:
                 road_lanesection_id = 0
                 sign = 1
             else:
@@ -594,6 +592,26 @@ def _get_related_lanesection(road,connected_road):
                 sign = -1
     return linktype, sign, road_lanesection_id
 
+def _get_related_lanesections(connecting,road):
+    """ _get_related_lanesections gives what _get_related_lanesection gives for each end of a connecting road that leads to a road
+
+        Parameters
+        ----------
+            connecting (Road): the connecting road
+
+            road (Road): the road it leads to
+
+        Returns
+        -------
+            list of (linktype, sign, lanesection_id of the connecting road)
+    """
+    retval = []
+    if _leads_to(connecting.predecessor, road):
+        retval.append(('predecessor', -1 if connecting.predecessor.contact_point == ContactPoint.start else 1, 0))
+    if _leads_to(connecting.successor, road):
+        retval.append(('successor', 1 if connecting.successor.contact_point == ContactPoint.start else -1, -1))
+    return retval
+
 def _create_links_roads(pre_road,suc_road):
     """ _create_links_roads takes two roads and connect the lanes with links, if they have the same amount. 
 
-- 
2.43.0


From f785f801d6b0e4440b191ddc38e87ce4ce516426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 17/23] fix: automatic connection ids skip ids already taken in
 the junction

---
 pyodrx/links.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 53d5d7a..ac96c78 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -409,6 +409,9 @@ class Junction():
                 connection (Connection): adds a connection to the junction
 
         """
+        while str(self._id_counter) in [str(c.id) for c in self.connections]:
+            # explicitly numbered connections can have taken the number
+            self._id_counter += 1
         connection._set_id(self._id_counter)
         self._id_counter += 1
         self.connections.append(connection)
-- 
2.43.0


From abfa30ba18d5b0a14e19296529d35c1d0b7c2d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 18/23] fix: the lane links of generated junctions are those of
 their connecting roads

---
 pyodrx/generators.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index fd85442..4a6f75e 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -12,7 +12,7 @@ from .enumerations import RoadMarkType, MarkRule, ContactPoint, ElementType, Obj
 
 from .geometry import Line, Arc, Spiral, EulerSpiral, PlanView
 from .opendrive import Road, OpenDrive
-from .links import Junction, Connection, _get_related_lanesection
+from .links import Junction, Connection, _get_related_lanesections
 
 
 STD_ROADMARK_SOLID = RoadMark(RoadMarkType.solid,0.2)
@@ -330,7 +330,21 @@ def _create_junction_links(connection, nlanes,r_or_l,sign,from_offset=0,to_offse
                 Default: 0
     """
     for i in range(1, nlanes+1, 1):
-        connection.add_lanelink( r_or_l*i+from_offset, r_or_l*sign*i+to_offset)
+        connection.add_lanelink( r_or_l*sign*i+from_offset, r_or_l*i+to_offset)
+
+
+def _get_link_sign(connecting, road, linktype):
+    """ helper function to see if the lanes of a connecting road are mirrored in the road it leads to
+
+        Parameters
+        ----------
+            connecting (Road): the connecting road
+
+            road (Road): the road it leads to
+
+            linktype (str): the end of the connecting road, successor or predecessor
+    """
+    return [sign for lt, sign, _ in _get_related_lanesections(connecting, road) if lt == linktype][0]
 
 
 def create_junction(junction_roads, id, roads):
@@ -358,15 +372,15 @@ def create_junction(junction_roads, id, roads):
     for jr in junction_roads:
         # handle succesor lanes
         conne1 = Connection(jr.successor.element_id,jr.id,ContactPoint.end) 
-        _, sign, _ =  _get_related_lanesection(jr,get_road_by_id(roads,jr.successor.element_id) ) 
+        sign = _get_link_sign(jr,get_road_by_id(roads,jr.successor.element_id),'successor')
 
-        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].rightlanes),-1,sign,to_offset=jr.lane_offset_suc)
-        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].leftlanes),1,sign,to_offset=jr.lane_offset_suc)
+        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].rightlanes),-1,sign,from_offset=jr.lane_offset_suc)
+        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].leftlanes),1,sign,from_offset=jr.lane_offset_suc)
         junc.add_connection(conne1)
 
         # handle predecessor lanes
         conne2 = Connection(jr.predecessor.element_id,jr.id,ContactPoint.start)
-        _, sign, _ =  _get_related_lanesection( jr,get_road_by_id(roads,jr.predecessor.element_id)) 
+        sign = _get_link_sign(jr,get_road_by_id(roads,jr.predecessor.element_id),'predecessor')
         _create_junction_links(conne2,len(jr.lanes.lanesections[0].rightlanes),-1,sign,from_offset=jr.lane_offset_pred)
         _create_junction_links(conne2,len(jr.lanes.lanesections[0].leftlanes),1,sign,from_offset=jr.lane_offset_pred)
         junc.add_connection(conne2)
-- 
2.43.0


From ec20f6f2204dca914fe1f76bd9987c8919b821ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 19/23] fix: generated junction roads look at the lane section
 at the junction, and report a lane mismatch

---
 pyodrx/generators.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index 4a6f75e..4290876 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -12,6 +12,7 @@ from .enumerations import RoadMarkType, MarkRule, ContactPoint, ElementType, Obj
 
 from .geometry import Line, Arc, Spiral, EulerSpiral, PlanView
 from .opendrive import Road, OpenDrive
+from .exceptions import NotSameAmountOfLanesError
 from .links import Junction, Connection, _get_related_lanesections
 
 
@@ -205,12 +206,10 @@ def get_lanes_offset(road1, road2, contactpoint):
 
             lane_offset (int):
     """
-    #now we always look at lanesection[0] to take the number of lanes 
-    #TO DO - understand if the roads are connect through end or start and then take the relative lane section 
     if contactpoint == ContactPoint.end: 
-        n_lanesection = 0 
+        n_lanesection = -1 
     else:
-        n_lanesection = -1
+        n_lanesection = 0
     if len(road1.lanes.lanesections[n_lanesection].leftlanes) == len(road2.lanes.lanesections[0].leftlanes) and len(road1.lanes.lanesections[n_lanesection].rightlanes) == len(road2.lanes.lanesections[0].rightlanes):
         n_lanes = len(road1.lanes.lanesections[n_lanesection].leftlanes) 
         lane_offset = road1.lanes.lanesections[n_lanesection].leftlanes[0].a     
-- 
2.43.0


From fb96e7fbcc2ab15acccca15c8e2a16a79d6673b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 20/23] fix: create_road accepts all geometries it documents

---
 pyodrx/generators.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index 4290876..44af48d 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -66,14 +66,11 @@ def create_road(geometry,id,left_lanes = 1, right_lanes = 1,road_type=-1,center_
             road (Road): a straight road
     """
     pv = PlanView()
-    raw_length = 0
     if isinstance(geometry,list):
         for g in geometry:
             pv.add_geometry(g)
-            raw_length += g.length
     else:
         pv.add_geometry(geometry)
-        raw_length += geometry.length
     
     # create centerlane
     lc = Lane(a=0)
-- 
2.43.0


From db041eb1d455b2c51ea7706fb76f5cc8cf8b39d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:59 +0000
Subject: [PATCH 21/23] fix: dimensions of road marks explicitly given as 0 are
 kept

---
 pyodrx/lane.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyodrx/lane.py b/pyodrx/lane.py
index ac502e7..5a588ce 100644
--- a/pyodrx/lane.py
+++ b/pyodrx/lane.py
@@ -528,20 +528,20 @@ class RoadMark():
             #set defaults in case no values were provided
             #values for broken lines 
             if marking_type == RoadMarkType.broken: 
-                self.length = length or 3
-                self.space = space or 3
+                self.length = 3 if length is None else length
+                self.space = 3 if space is None else space
             #values for solid lines 
             elif marking_type == RoadMarkType.solid:
-                self.length = length or 3
-                self.space = space or 0
+                self.length = 3 if length is None else length
+                self.space = 0 if space is None else space
             #create empty line if arguments are missing
             else: 
-                self.length = length or 0
-                self.space = space or 0
+                self.length = 0 if length is None else length
+                self.space = 0 if space is None else space
                 print ("No defaults for arguments 'space' and 'length' for roadmark type", enum2str(marking_type), "available and no values were passed. Creating an empty roadmark.")
             #set remaining defaults
-            self.width = width or 0.2
-            self.toffset = toffset or 0
+            self.width = 0.2 if width is None else width
+            self.toffset = 0 if toffset is None else toffset
             self.rule = rule or MarkRule.none
             self._line = RoadLine(self.width,self.length,self.space,self.toffset,self.soffset,self.rule,self.color)          
 
-- 
2.43.0


From 7c267eff9901a0d15da017a8d09f9939091f8b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 22/23] fix: lanes are linked at both sides where two
 connecting roads meet

---
 pyodrx/links.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index ac96c78..f5b20ba 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -484,11 +484,12 @@ def create_lane_links(road1,road2):
     #                 _create_links_roads(road1,road2)
     #             elif road1.predecessor and road1.predecessor.element_id == road2.id:
     #                 _create_links_roads(road2,road1)
-    elif road1.road_type != -1:
-        _create_links_connecting_road(road1,road2)
-    elif road2.road_type != -1:
-
-        _create_links_connecting_road(road2,road1)
+    else:
+        # both can be connecting roads, then each of them has to be linked
+        if road1.road_type != -1:
+            _create_links_connecting_road(road1,road2)
+        if road2.road_type != -1:
+            _create_links_connecting_road(road2,road1)
     
 def _add_link_once(lane, linktype, linkid):
     """ _add_link_once adds a link to a lane, if the lane does not already have that very link
-- 
2.43.0


From 951912c9bc687aa50d55f38337b1c84e3501082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:26 +0000
Subject: [PATCH 23/23] fix: roads that cannot form a junction are left
 unlinked by create_junction_roads

---
 pyodrx/generators.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index 44af48d..5485c48 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -262,6 +262,12 @@ def create_junction_roads(roads,angles,r,junction=1,spiral_part = 1/3, arc_part
     Y0 = Y-r*(1-np.cos(angle_cloth))
     linelength = 2*(X0 + r + Y0)
 
+    # the first road ends at the junction, the others start there
+    if len(roads) > 1 and roads[0].successor:
+        raise ValueError('only one successor is allowed')
+    if any(road.predecessor for road in roads[1:]):
+        raise ValueError('only one predecessor is allowed')
+
     junction_roads = []
 
     # loop over the roads to get all possible combinations of connecting roads
@@ -269,10 +275,8 @@ def create_junction_roads(roads,angles,r,junction=1,spiral_part = 1/3, arc_part
         # for now the first road is place as base, 
         if i == 0:
             cp = ContactPoint.end
-            roads[i].add_successor(ElementType.junction,junction)
         else:
             cp = ContactPoint.start
-            roads[i].add_predecessor(ElementType.junction,junction)
         
         for j in range(1+i,len(roads)):
             # check angle needed for junction
@@ -301,7 +305,12 @@ def create_junction_roads(roads,angles,r,junction=1,spiral_part = 1/3, arc_part
             startnum += 1
             junction_roads.append(tmp_junc)
 
-    # add junction to the last road aswell since it's not part of the loop
+    # add junction to the roads when all connecting roads are created, i.e. not if the roads do not fit together
+    for i in range(len(roads)-1):
+        if i == 0:
+            roads[i].add_successor(ElementType.junction,junction)
+        else:
+            roads[i].add_predecessor(ElementType.junction,junction)
     roads[-1].add_predecessor(ElementType.junction,junction)
 
     return junction_roads
-- 
2.43.0

