From aae3c94a2da141c410adecb09bc8c37cc91cccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:15 +0000
Subject: [PATCH 01/51] fix: use int instead of np.int, which numpy 1.24
 removed (density layers could not be returned or exported)

---
 bathygrid/bgrid.py | 4 ++--
 bathygrid/tile.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 1392517..3b4b34b 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -506,7 +506,7 @@ class BathyGrid(BaseGrid):
         elif layername in ['density', 'hypothesis_count']:
             # density has to have an integer based nodatavalue
             try:
-                nodatavalue = np.int(nodatavalue)
+                nodatavalue = int(nodatavalue)
             except ValueError:
                 nodatavalue = 0
         y_size = self.height / resolution
@@ -1040,7 +1040,7 @@ class BathyGrid(BaseGrid):
             elif lyr in ['density', 'hypothesis_count']:
                 # density has to have an integer based nodatavalue
                 try:
-                    nodatavalue = np.int(nodatavalue)
+                    nodatavalue = int(nodatavalue)
                 except ValueError:
                     nodatavalue = 0
             finaldata[lyr] = np.full((max(curdcol) + cells_per_tile, max(curdrow) + cells_per_tile), nodatavalue)
diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index 5f44f47..990b734 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -799,7 +799,7 @@ class SRTile(Tile):
         elif layer in ['density', 'hypothesis_count']:
             # density has to have an integer based nodatavalue
             try:
-                nodatavalue = np.int(nodatavalue)
+                nodatavalue = int(nodatavalue)
             except ValueError:
                 nodatavalue = 0
         else:
-- 
2.43.0


From 195ef45e30891b294bf89bf697306744f60a8261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 02/51] fix: shoalest gridding takes the uncertainty of the
 shoalest point in the cell, not of an unrelated point

---
 bathygrid/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/algorithms.py b/bathygrid/algorithms.py
index c08d628..4764a10 100644
--- a/bathygrid/algorithms.py
+++ b/bathygrid/algorithms.py
@@ -123,8 +123,8 @@ def np_grid_shoalest(depth: np.array, cell_indices: np.array, grid: np.ndarray,
 
     depth_idx = None
     if tvu_enabled or thu_enabled:
-        depth_sort = np.argsort(depth)
-        depth_idx = np.searchsorted(depth[depth_sort], depth_min)
+        # sort by cell and then by depth, the first point of each cell is the shoalest one
+        depth_idx = np.lexsort((depth, cell_indices))[uidx]
     if tvu_enabled:
         tvu_shoalest = tvu[depth_idx]
         tvu_grid[urow, ucol] = tvu_shoalest
-- 
2.43.0


From 9ed76d76f1a7211a326a3c450e9cfe7af8d1429f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:20 +0000
Subject: [PATCH 03/51] fix: extents of a grid with a non zero origin are
 relative to that origin

---
 bathygrid/grids.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bathygrid/grids.py b/bathygrid/grids.py
index 86bbbfe..485b7e6 100644
--- a/bathygrid/grids.py
+++ b/bathygrid/grids.py
@@ -91,10 +91,10 @@ class BaseGrid(Grid):
         If this BathyGrid is allowed to grow, we extend the boundaries by integer increments of tile_size
         """
         if self.can_grow:
-            nearest_lower_x = np.floor((self.min_x - self.origin_x) / self.tile_size) * self.tile_size
-            nearest_higher_x = np.ceil((self.max_x - self.origin_x) / self.tile_size) * self.tile_size
-            nearest_lower_y = np.floor((self.min_y - self.origin_y) / self.tile_size) * self.tile_size
-            nearest_higher_y = np.ceil((self.max_y - self.origin_y) / self.tile_size) * self.tile_size
+            nearest_lower_x = np.floor((self.min_x - self.origin_x) / self.tile_size) * self.tile_size + self.origin_x
+            nearest_higher_x = np.ceil((self.max_x - self.origin_x) / self.tile_size) * self.tile_size + self.origin_x
+            nearest_lower_y = np.floor((self.min_y - self.origin_y) / self.tile_size) * self.tile_size + self.origin_y
+            nearest_higher_y = np.ceil((self.max_y - self.origin_y) / self.tile_size) * self.tile_size + self.origin_y
             if nearest_higher_x == self.max_x:  # higher value cant be equal, our binning relies on it being less than
                 nearest_higher_x += self.tile_size
             if nearest_higher_y == self.max_y:
-- 
2.43.0


From 44dfbf10db7d4bc0abb39fcc2aff69d3ef5fb3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:22 +0000
Subject: [PATCH 04/51] fix: variable resolution grid reloads after all points
 of a subgrid were removed

---
 bathygrid/backends.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bathygrid/backends.py b/bathygrid/backends.py
index 0d1e6f4..1e1071e 100644
--- a/bathygrid/backends.py
+++ b/bathygrid/backends.py
@@ -347,7 +347,8 @@ class BaseStorage(OperationalGrid):
                         newgrid = storage_cls()
                         newgrid.name = os.path.split(subgrid_folder)[1]
                         newgrid.load(root_folder)
-                        self.tiles[row][col] = newgrid
+                        # all points were removed from this subgrid, same as the in memory grid there is no tile here
+                        self.tiles[row][col] = None if newgrid.is_empty else newgrid
                     else:
                         self.tiles[row][col] = None
 
-- 
2.43.0


From dbbc832e5d041207b4c77ca1b178f6d6de5efbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:25 +0000
Subject: [PATCH 05/51] fix: drop the existing tile mask when a grid that was
 emptied is started again

---
 bathygrid/grids.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/grids.py b/bathygrid/grids.py
index 485b7e6..57b56b9 100644
--- a/bathygrid/grids.py
+++ b/bathygrid/grids.py
@@ -127,6 +127,8 @@ class BaseGrid(Grid):
             y_corner_coord = np.argwhere(tile_y_origin == self.tile_y_origin[0][0])[0][0]
             x_corner_coord = np.argwhere(tile_x_origin == self.tile_x_origin[0][0])[0][1]
             self.existing_tile_mask[y_corner_coord:y_corner_coord + existing_tile_shape[0], x_corner_coord:x_corner_coord + existing_tile_shape[1]] = True
+        else:
+            self.existing_tile_mask = None
 
         self.tile_x_origin, self.tile_y_origin = tile_x_origin, tile_y_origin
 
-- 
2.43.0


From bf9f535eb278fcd9a13f5887f3aff3319665fbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:27 +0000
Subject: [PATCH 06/51] fix: get_layers_by_name does not mix up layers when a
 tile is missing one of them

---
 bathygrid/bgrid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 3b4b34b..e198a81 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1225,9 +1225,10 @@ class BathyGrid(BaseGrid):
             if tile:
                 row, col = self._tile_idx_to_row_col(cnt)
                 tile, newdata, geo, data_col, data_row, tile_cell_count = self.get_tile_data(row, col, resolution, layer, nodatavalue, z_positive_up)
-                for cnt, lyr in enumerate(newdata.keys()):
-                    data[cnt][data_col:data_col + tile_cell_count, data_row:data_row + tile_cell_count] = newdata[lyr]
-                    empty = False
+                for lyrcnt, lyr in enumerate(layer):
+                    if lyr in newdata:
+                        data[lyrcnt][data_col:data_col + tile_cell_count, data_row:data_row + tile_cell_count] = newdata[lyr]
+                        empty = False
         if empty:
             data = None
         return data
-- 
2.43.0


From 1c29ae6c8a8589fe5f334b9aced6a04b9fe91738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 07/51] fix: cell boundaries include the outer edge of the
 grid, layer values in the last row/column can be queried

---
 bathygrid/bgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index e198a81..61d93ee 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1791,8 +1791,8 @@ class BathyGrid(BaseGrid):
             x = (np.arange(self.min_x, self.max_x, resolution) + resolution / 2)[new_mins[1]:new_maxs[1]]
             y = (np.arange(self.min_y, self.max_y, resolution) + resolution / 2)[new_mins[0]:new_maxs[0]]
         else:  # get the cell boundaries for each cell, will be one longer than the node locations option (this is what matplotlib pcolormesh wants)
-            x = np.arange(self.min_x, self.max_x, resolution)[new_mins[1]:new_maxs[1] + 1]
-            y = np.arange(self.min_y, self.max_y, resolution)[new_mins[0]:new_maxs[0] + 1]
+            x = np.arange(self.min_x, self.max_x + resolution, resolution)[new_mins[1]:new_maxs[1] + 1]
+            y = np.arange(self.min_y, self.max_y + resolution, resolution)[new_mins[0]:new_maxs[0] + 1]
         return x, y, surfs, new_mins, new_maxs
 
     def _validate_layer_query(self, x_loc: np.array, y_loc: np.array, layer: str = 'depth', resolution: float = None,
-- 
2.43.0


From 3e3b85e7e41a60077151b4d2deddf80b428c9e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 08/51] fix: chunks of tiles stay within the maximum chunk
 dimension in both directions

---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 61d93ee..f285af0 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1072,7 +1072,7 @@ class BathyGrid(BaseGrid):
         if arr.ndim != 2 or len(chunk_shape) != 2:
             raise NotImplementedError('_split_to_approx_shape: assumes two dimensions')
 
-        if chunk_shape >= arr.shape:
+        if chunk_shape[0] >= arr.shape[0] and chunk_shape[1] >= arr.shape[1]:
             valid = arr != None
             if valid.any():
                 return [arr[valid].tolist()]
-- 
2.43.0


From 4fc65e60f6e8d7405fc60279b682ba99300ceeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 09/51] fix: the integer nodatavalue of the density layer is
 not used for the other layers of a chunk

---
 bathygrid/bgrid.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index f285af0..739111e 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1036,14 +1036,16 @@ class BathyGrid(BaseGrid):
         for lyr in layers:
             if lyr in ['depth', 'intensity', 'vertical_uncertainty', 'horizontal_uncertainty', 'total_uncertainty', 'hypothesis_ratio']:
                 # ensure nodatavalue is a float32
-                nodatavalue = np.float32(nodatavalue)
+                lyr_nodatavalue = np.float32(nodatavalue)
             elif lyr in ['density', 'hypothesis_count']:
                 # density has to have an integer based nodatavalue
                 try:
-                    nodatavalue = int(nodatavalue)
+                    lyr_nodatavalue = int(nodatavalue)
                 except ValueError:
-                    nodatavalue = 0
-            finaldata[lyr] = np.full((max(curdcol) + cells_per_tile, max(curdrow) + cells_per_tile), nodatavalue)
+                    lyr_nodatavalue = 0
+            else:
+                lyr_nodatavalue = nodatavalue
+            finaldata[lyr] = np.full((max(curdcol) + cells_per_tile, max(curdrow) + cells_per_tile), lyr_nodatavalue)
             for cnt, data in enumerate(layerdata):
                 if lyr in data:
                     finaldata[lyr][curdcol[cnt]:curdcol[cnt] + cells_per_tile, curdrow[cnt]:curdrow[cnt] + cells_per_tile] = data[lyr]
-- 
2.43.0


From b8796c588fe5203fc0753ba860d8dde52579cfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 10/51] fix: subgrids of a variable resolution backscatter grid
 are backscatter grids

---
 bathygrid/maingrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/maingrid.py b/bathygrid/maingrid.py
index 88b81c2..586e050 100644
--- a/bathygrid/maingrid.py
+++ b/bathygrid/maingrid.py
@@ -58,7 +58,7 @@ class VRGridTile(SRGrid):
             ofolder = ''
         return self.storage_class(min_x=tile_x_origin, min_y=tile_y_origin, max_x=tile_x_origin + self.tile_size,
                                   max_y=tile_y_origin + self.tile_size, tile_size=self.subtile_size,
-                                  set_extents_manually=True, output_folder=ofolder)
+                                  set_extents_manually=True, output_folder=ofolder, is_backscatter=self.is_backscatter)
 
 
 class SRGridZarr(ZarrGrid):
@@ -116,4 +116,4 @@ class VRGridTileZarr(SRGridZarr):
             ofolder = ''
         return self.storage_class(min_x=tile_x_origin, min_y=tile_y_origin, max_x=tile_x_origin + self.tile_size,
                                   max_y=tile_y_origin + self.tile_size, tile_size=self.subtile_size,
-                                  set_extents_manually=True, output_folder=ofolder)
+                                  set_extents_manually=True, output_folder=ofolder, is_backscatter=self.is_backscatter)
-- 
2.43.0


From e1d9a70623f4fa81007d80b47b49f0a6b2598d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:30 +0000
Subject: [PATCH 11/51] fix: neighbor points of a variable resolution tile are
 the points within the buffer of the tile edge

---
 bathygrid/bgrid.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 739111e..cb04819 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -962,8 +962,9 @@ class BathyGrid(BaseGrid):
                 data.append(newdata)
             else:  # for variable resolution, tils will be a list of grids, get all tiles in the grid
                 for subtil in tils[0].tiles.flat:
-                    newdata = subtil.data[subtil.data['y'] >= (subtil.max_y - buffer_value)]
-                    data.append(newdata)
+                    if subtil:
+                        newdata = subtil.data[subtil.data['y'] >= (tils[0].max_y - buffer_value)]
+                        data.append(newdata)
         # right
         if tils[1]:
             if isinstance(tils[1], Tile):  # single resolution option
@@ -971,8 +972,9 @@ class BathyGrid(BaseGrid):
                 data.append(newdata)
             else:
                 for subtil in tils[1].tiles.flat:
-                    newdata = subtil.data[subtil.data['x'] <= (subtil.min_x + buffer_value)]
-                    data.append(newdata)
+                    if subtil:
+                        newdata = subtil.data[subtil.data['x'] <= (tils[1].min_x + buffer_value)]
+                        data.append(newdata)
         # down
         if tils[2]:
             if isinstance(tils[2], Tile):  # single resolution option
@@ -980,8 +982,9 @@ class BathyGrid(BaseGrid):
                 data.append(newdata)
             else:
                 for subtil in tils[2].tiles.flat:
-                    newdata = subtil.data[subtil.data['y'] <= (subtil.min_y + buffer_value)]
-                    data.append(newdata)
+                    if subtil:
+                        newdata = subtil.data[subtil.data['y'] <= (tils[2].min_y + buffer_value)]
+                        data.append(newdata)
         # left
         if tils[3]:
             if isinstance(tils[3], Tile):  # single resolution option
@@ -989,8 +992,9 @@ class BathyGrid(BaseGrid):
                 data.append(newdata)
             else:
                 for subtil in tils[3].tiles.flat:
-                    newdata = subtil.data[subtil.data['x'] >= (subtil.max_x - buffer_value)]
-                    data.append(newdata)
+                    if subtil:
+                        newdata = subtil.data[subtil.data['x'] >= (tils[3].max_x - buffer_value)]
+                        data.append(newdata)
         if data:
             data = np.concatenate(data)
             if not isinstance(data, np.ndarray):
-- 
2.43.0


From c2d54a16915884d7c4b0bc0e5d89e4367efebc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:33 +0000
Subject: [PATCH 12/51] fix: csv elevation is positive up for negative mean
 depths and positive up vertical references

---
 bathygrid/bgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index cb04819..62912b9 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2264,8 +2264,8 @@ class OperationalGrid(BathyGrid):
             dfmt = ['%.3f', '%.3f']
             for cnt, lname in enumerate(lyrs):
                 if lname == 'depth' and z_positive_up:
-                    if self.mean_depth > 0:  # currently positive down
-                        lyrdata[cnt] = lyrdata[cnt] * -1
+                    # layer data is always positive down here, regardless of the sign of the depths or the vertical reference
+                    lyrdata[cnt] = lyrdata[cnt] * -1
                     lname = 'elevation'
                 dataset += [lyrdata[cnt].ravel()]
                 dnames += [lname]
-- 
2.43.0


From c91f3b61c7e1c59912a539849a789c692715fd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:36 +0000
Subject: [PATCH 13/51] fix: save without a folder path raises for a grid that
 was never saved instead of silently saving nothing

---
 bathygrid/backends.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bathygrid/backends.py b/bathygrid/backends.py
index 1e1071e..7d6f7e2 100644
--- a/bathygrid/backends.py
+++ b/bathygrid/backends.py
@@ -254,6 +254,10 @@ class BaseStorage(OperationalGrid):
         progress_bar
             if True, will display a progress bar
         """
+        if not folderpath:
+            folderpath = self.output_folder
+            if not folderpath:
+                raise ValueError('Grid has not been saved before, you must provide a folder path to save.')
         if folderpath:
             self.output_folder = folderpath
             self._save_grid()
-- 
2.43.0


From 06c4b3588c2dd76a51fe1ccc344c5ccc489c47d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:38 +0000
Subject: [PATCH 14/51] fix: saving a variable resolution grid clears the right
 folder for tiles that no longer exist

---
 bathygrid/backends.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/backends.py b/bathygrid/backends.py
index 7d6f7e2..1176569 100644
--- a/bathygrid/backends.py
+++ b/bathygrid/backends.py
@@ -272,7 +272,7 @@ class BaseStorage(OperationalGrid):
                 for cnt, subgrid in enumerate(self.tiles.flat):
                     if progress_bar:
                         print_progress_bar(cnt + 1, self.tiles.size, 'Saving to {}:'.format(os.path.split(folderpath)[1]))
-                    subgrid_folder, row, col = self._get_tile_folder(self.output_folder, cnt)
+                    subgrid_folder, row, col = self._get_tile_folder(os.path.join(self.output_folder, self.name), cnt)
                     if subgrid is None:
                         self._clear_tile(subgrid_folder)
                     else:
-- 
2.43.0


From ba69c738a8d1288d6b118c0a8e9eecfc1b2bf69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 15/51] fix: a grid without points can be saved

---
 bathygrid/backends.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/backends.py b/bathygrid/backends.py
index 1176569..7b437f4 100644
--- a/bathygrid/backends.py
+++ b/bathygrid/backends.py
@@ -261,6 +261,8 @@ class BaseStorage(OperationalGrid):
         if folderpath:
             self.output_folder = folderpath
             self._save_grid()
+            if self.tiles is None:  # nothing has been added to this grid
+                return
             if progress_bar:
                 print_progress_bar(0, self.tiles.size, 'Saving to {}:'.format(os.path.split(folderpath)[1]))
             if self.sub_type in ['srtile', 'quadtile']:
-- 
2.43.0


From e092369f9c1329c3127849f47d0221b16313c6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:43 +0000
Subject: [PATCH 16/51] fix: querying the layer for a container does not add
 layers to the grid

---
 bathygrid/tile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index 990b734..58673d7 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -832,6 +832,9 @@ class SRTile(Tile):
             data = np.copy(self.cells[resolution][layer].compute())
         except:
             data = np.copy(self.cells[resolution][layer])
+        if container_query:  # only built to answer this query, is not a layer of the grid
+            self.cells[resolution].pop(layer)
+            self.cells[resolution].pop(layer + '_density', None)
         if np.count_nonzero(np.isnan(data)) == data.size:
             return None
         if layer.lower() == 'depth' and z_positive_up:
-- 
2.43.0


From 7f2c35a512bea43d45c61a9f7a7434801dd63ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 17/51] fix: no_grid is True for a reloaded grid without points

---
 bathygrid/bgrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 62912b9..31c134d 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -126,6 +126,7 @@ class BathyGrid(BaseGrid):
                     return False
                 else:
                     return True
+        return True
 
     @property
     def has_vertical_uncertainty(self):
-- 
2.43.0


From 7b29708322447784d0b66e419d76e0bbd3014f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 18/51] fix: points without z are refused before the grid is
 changed

---
 bathygrid/bgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 31c134d..0d4dc52 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2144,8 +2144,8 @@ class OperationalGrid(BathyGrid):
         if type(self.data) in [np.ndarray, Array]:
             if not self.data.dtype.names:
                 raise ValueError('BathyGrid: numpy array provided for data, but no names were found, array must be a structured array')
-            if 'x' not in self.data.dtype.names or 'y' not in self.data.dtype.names:
-                raise ValueError('BathyGrid: numpy structured array provided for data, but "x" or "y" not found in variable names')
+            if 'x' not in self.data.dtype.names or 'y' not in self.data.dtype.names or 'z' not in self.data.dtype.names:
+                raise ValueError('BathyGrid: numpy structured array provided for data, but "x", "y" or "z" not found in variable names')
         elif type(self.data) == xr.Dataset:
             if 'x' not in self.data:
                 raise ValueError('BathyGrid: xarray Dataset provided for data, but "x" or "y" not found in variable names')
-- 
2.43.0


From c8022d07221e34b47eed9560df134a0f3007bd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:51 +0000
Subject: [PATCH 19/51] fix: adding an empty dataset is refused before the
 container is registered

---
 bathygrid/bgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 0d4dc52..1f3c3d1 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2154,6 +2154,8 @@ class OperationalGrid(BathyGrid):
             self._convert_dataset()  # internally we just convert xarray dataset to numpy for ease of use
         else:
             raise ValueError('QuadTree: numpy structured array or dask array with "x" and "y" as variable must be provided')
+        if self.data.size == 0:
+            raise ValueError('BathyGrid: provided data does not contain any points')
 
     def save(self, folder_path: str = None, progress_bar: bool = True):
         """
-- 
2.43.0


From a3e92606b357b451f29b7c6435d48c184bfe8710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 20/51] fix: points refused for their vertical reference do not
 set the coordinate system of the grid

---
 bathygrid/bgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 1f3c3d1..57e2325 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -372,12 +372,12 @@ class BathyGrid(BaseGrid):
             if self.epsg != int(epsg):
                 raise ValueError('BathyGrid: Found existing coordinate system {}, new coordinate system {} must match'.format(self.epsg,
                                                                                                                               epsg))
-        if epsg:
-            self.epsg = int(epsg)
         if self.vertical_reference and (self.vertical_reference != vertical_reference):
             if not (self.vertical_reference.find('MLLW') != -1 and vertical_reference.find('MLLW') != -1):
                 raise ValueError('BathyGrid: Found existing vertical reference {}, new vertical reference {} must match'.format(self.vertical_reference,
                                                                                                                                 vertical_reference))
+        if epsg:
+            self.epsg = int(epsg)
         if min_time:
             min_time = int(min_time)
             if self.min_time:
-- 
2.43.0


From 8f48b949dd52cd7c5b14c2fb93bf3e449d9dda91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 21/51] fix: max dimension is reported for chunks made of one
 tile

---
 bathygrid/bgrid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 57e2325..9d49368 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1184,9 +1184,9 @@ class BathyGrid(BaseGrid):
                 else:
                     # merge the georeference of the two datasets, everything remains the same except the origin, which is now the global origin
                     curgeo = [min([curgeo[0], geo[0]]), curgeo[1], curgeo[2], max([curgeo[3], geo[3]]), curgeo[4], curgeo[5]]
-                    # here we take the greatest dimension currently
-                    curmaxdimension = max((max(curdcol) - min(curdcol) + tile_cell_count) * resolution,
-                                          (max(curdrow) - min(curdrow) + tile_cell_count) * resolution)
+                # here we take the greatest dimension currently
+                curmaxdimension = max((max(curdcol) - min(curdcol) + tile_cell_count) * resolution,
+                                      (max(curdrow) - min(curdrow) + tile_cell_count) * resolution)
             if all([d == {} for d in curdata]):  # skipping empty chunk, happens with VR where the tile has no data at this resolution
                 continue
             assert all(curcellcount)  # all the cell counts per tile should be the same for the one resolution
-- 
2.43.0


From f796273c7f426fd34a65eb516bbb5763c1642727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 22/51] fix: chunks of tiles can be built when some of the
 tiles are not gridded at the resolution

---
 bathygrid/bgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 9d49368..3163762 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1175,6 +1175,8 @@ class BathyGrid(BaseGrid):
             curmaxdimension = 0
             for trow, tcol in index_list:
                 tile, data, geo, data_col, data_row, tile_cell_count = self.get_tile_data(trow, tcol, resolution, layer, nodatavalue, z_positive_up)
+                if geo is None:  # tile is not gridded at this resolution
+                    continue
                 curdata.append(data)
                 curdcol.append(data_col)
                 curdrow.append(data_row)
-- 
2.43.0


From 207137ed685105d06e300ca55611471f8d87ce0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:00 +0000
Subject: [PATCH 23/51] fix: automatic resolution works when the mean depth is
 zero

---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 3163762..62f9bc4 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -422,7 +422,7 @@ class BathyGrid(BaseGrid):
             resolution to use at the existing mean_depth
         """
 
-        if not self.mean_depth:
+        if self.mean_depth is None:
             raise ValueError('Bathygrid: Unable to calculate resolution when mean_depth is None')
         dpth_keys = list(depth_resolution_lookup.keys())
         # get next positive value in keys of resolution lookup
-- 
2.43.0


From 320ef6c28c47bfa2d48618884e1dd1caaa586401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 24/51] fix: density at a location comes from the resolution
 that has soundings there

---
 bathygrid/bgrid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 62f9bc4..b45e4a0 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1871,6 +1871,9 @@ class BathyGrid(BaseGrid):
             surf_x, surf_y, surfs, new_mins, new_maxs = self.return_surf_xyz(layer, rez, cell_boundaries=True,
                                                                              nodatavalue=nodatavalue)
 
+            if layer in ['density', 'hypothesis_count']:  # cells without soundings are zero, there is no value there
+                surfs[0] = np.where(surfs[0] == 0, np.float32(nodatavalue), surfs[0])
+
             if asarrays:
                 query_x_loc = x_loc[no_values_yet]
                 query_y_loc = y_loc[no_values_yet]
-- 
2.43.0


From 43bec3c8fe100e52bd1ac8121af758587b294e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 25/51] fix: mean depth is the mean of all points in the grid
 and is on disk with the tile count after adding points

---
 bathygrid/bgrid.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index b45e4a0..6f83518 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -403,13 +403,14 @@ class BathyGrid(BaseGrid):
 
     def _update_mean_depth(self):
         """
-        Calculate the mean depth of all loaded points before they are loaded into tiles and cleared from this object
+        Calculate the mean depth of the points in the grid and all loaded points before they are loaded into tiles and
+        cleared from this object
         """
 
-        if self.data is None or not self.data['z'].any():
-            self.mean_depth = 0.0
-        else:
-            self.mean_depth = np.round(self.data['z'].mean(), 3)
+        if self.data is not None:
+            current_count = self.points_count
+            total_depth = self.mean_depth * current_count + self.data['z'].sum(dtype=np.float64)
+            self.mean_depth = np.round(total_depth / (current_count + self.data['z'].size), 3)
 
     def _calculate_resolution_lookup(self):
         """
@@ -662,6 +663,7 @@ class BathyGrid(BaseGrid):
                     self._save_tile(flat_tiles[ul], ul, only_points=True)
                     self._load_tile(ul, only_points=True)
             self.number_of_tiles = np.count_nonzero(self.tiles != None)
+            self._save_grid()
 
     def add_points(self, data: Union[xr.Dataset, Array, np.ndarray], container_name: str, file_list: list = None,
                    crs: int = None, vertical_reference: str = None, min_time: float = None, max_time: float = None,
@@ -702,8 +704,8 @@ class BathyGrid(BaseGrid):
         self._validate_input_data()
         self._update_metadata(container_name, file_list, crs, vertical_reference, min_time, max_time)
         self._update_base_grid()
-        self._update_tiles(container_name, progress_bar)
         self._update_mean_depth()
+        self._update_tiles(container_name, progress_bar)
         self.data = None  # points are in the tiles, clear this attribute to free up memory
 
     def _remove_tile(self, flat_index: int):
@@ -752,6 +754,10 @@ class BathyGrid(BaseGrid):
                         self._load_tile(cnt, only_points=True)
             if self.is_empty:
                 self.tiles = None
+                self.mean_depth = 0.0
+            else:
+                total_depth = sum([tile.mean_depth * tile.points_count for tile in self.tiles.flat if tile])
+                self.mean_depth = np.round(total_depth / self.points_count, 3)
             self._save_grid()
 
     def get_tiles_by_resolution(self, resolution: float = None, layer: Union[str, list] = 'depth',
-- 
2.43.0


From 2613a6e7bd0db13f1b4705ce5ad4364333fce22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 26/51] fix: resolutions only used by removed tiles are removed
 from the grid

---
 bathygrid/bgrid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 6f83518..7216dbd 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -758,6 +758,10 @@ class BathyGrid(BaseGrid):
             else:
                 total_depth = sum([tile.mean_depth * tile.points_count for tile in self.tiles.flat if tile])
                 self.mean_depth = np.round(total_depth / self.points_count, 3)
+            if not self.is_empty:  # a resolution only used by tiles that are now gone is no longer in the grid
+                self.resolutions = [rez for rez in self.resolutions if any(rez in tile.resolutions for tile in self.tiles.flat if tile)]
+            else:
+                self.resolutions = []
             self._save_grid()
 
     def get_tiles_by_resolution(self, resolution: float = None, layer: Union[str, list] = 'depth',
-- 
2.43.0


From 37f2515653774f414bf00206aeb2c1333cfc7f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:10 +0000
Subject: [PATCH 27/51] fix: a grid can be created in a relative folder

---
 bathygrid/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bathygrid/utilities.py b/bathygrid/utilities.py
index 9f0dd53..bdae9f7 100644
--- a/bathygrid/utilities.py
+++ b/bathygrid/utilities.py
@@ -86,7 +86,8 @@ def create_folder(output_directory: str, fldrname: str):
         path to the created folder
     """
 
-    os.makedirs(output_directory, exist_ok=True)
+    if output_directory:
+        os.makedirs(output_directory, exist_ok=True)
     tstmp = datetime.utcnow().strftime('%Y%m%d_%H%M%S')
     try:
         fldr_path = os.path.join(output_directory, fldrname)
-- 
2.43.0


From 9dd72cf6cd876bd15041a37afa242d23f5d3f963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:12 +0000
Subject: [PATCH 28/51] fix: attribution of a container is not taken from
 another container with a _0 suffix

---
 bathygrid/bgrid.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 7216dbd..c10bfe0 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2426,13 +2426,13 @@ class OperationalGrid(BathyGrid):
                 'storage_type': self.storage_type}
         ucontainers = self.return_unique_containers()
         for cont_name in ucontainers:
-            try:  # this works for kluster added containers, that have a suffix with an index
-                data['source_{}'.format(cont_name)] = {'time': self.container_timestamp[cont_name + '_0'],
-                                                       'multibeam_lines': self.container[cont_name + '_0']}
+            try:  # this works for all standard container names
+                data['source_{}'.format(cont_name)] = {'time': self.container_timestamp[cont_name],
+                                                       'multibeam_lines': self.container[cont_name]}
             except KeyError:
-                try:  # this works for all other standard container names
-                    data['source_{}'.format(cont_name)] = {'time': self.container_timestamp[cont_name],
-                                                           'multibeam_lines': self.container[cont_name]}
+                try:  # this works for kluster added containers, that have a suffix with an index
+                    data['source_{}'.format(cont_name)] = {'time': self.container_timestamp[cont_name + '_0'],
+                                                           'multibeam_lines': self.container[cont_name + '_0']}
                 except KeyError:
                     nearest_cont_name = [nm for nm in self.container if nm.find(cont_name) != -1]
                     if nearest_cont_name[0]:
-- 
2.43.0


From 01d32f49a9453edf1716c9d7b7d7756ce97c483a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 29/51] fix: update gridding only clears and regrids the tiles
 whose points changed

---
 bathygrid/bgrid.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index c10bfe0..842a9c8 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1329,6 +1329,7 @@ class BathyGrid(BaseGrid):
             if progress_bar:
                 print_progress_bar(cnt + 1, self.tiles.size, 'Gridding {} - {}:'.format(self.name, algorithm))
             if tile:
+                clear_tile = clear_existing
                 if regrid_option == 'update':
                     if not clear_existing:  # this should always be false with update, but check just in case someone wants to fully clear everything
                         # update only those tiles with new points/removed points.  If the point count hasn't changed, we skip
@@ -1338,7 +1339,7 @@ class BathyGrid(BaseGrid):
                                     self.resolutions.append(rz)
                             continue
                     if isinstance(tile, SRTile):
-                        clear_existing = True  # If we get here, it is an update and the tile needs to be updated, so we clear existing grid data
+                        clear_tile = True  # If we get here, it is an update and the tile needs to be updated, so we clear existing grid data
                 if algorithm == 'cube':
                     border_data = self.get_tile_neighbor_points(tile, tile.width / 10)
                     if grid_border_data is not None:
@@ -1349,13 +1350,13 @@ class BathyGrid(BaseGrid):
                 else:
                     border_data = None
                 if isinstance(tile, BathyGrid) and auto_resolution:  # vrgrid subgrids can calc their own resolution
-                    rez = tile.grid(algorithm, None, auto_resolution_mode=auto_resolution, clear_existing=clear_existing, regrid_option=regrid_option, progress_bar=False,
+                    rez = tile.grid(algorithm, None, auto_resolution_mode=auto_resolution, clear_existing=clear_tile, regrid_option=regrid_option, progress_bar=False,
                                     grid_parameters=self.grid_parameters, border_data=border_data)
                 elif isinstance(tile, SRTile) and auto_resolution and self.name not in sr_grid_root_names:  # tiles in vrgridtile can be different resolutions
-                    rez = tile.grid(algorithm, None, auto_resolution_mode=auto_resolution, clear_existing=clear_existing, regrid_option=regrid_option, progress_bar=False,
+                    rez = tile.grid(algorithm, None, auto_resolution_mode=auto_resolution, clear_existing=clear_tile, regrid_option=regrid_option, progress_bar=False,
                                     grid_parameters=self.grid_parameters, border_data=border_data)
                 else:
-                    rez = tile.grid(algorithm, resolution, auto_resolution_mode=auto_resolution, clear_existing=clear_existing, regrid_option=regrid_option, progress_bar=False,
+                    rez = tile.grid(algorithm, resolution, auto_resolution_mode=auto_resolution, clear_existing=clear_tile, regrid_option=regrid_option, progress_bar=False,
                                     grid_parameters=self.grid_parameters, border_data=border_data)
                 if isinstance(rez, float) or isinstance(rez, int):
                     rez = [rez]
@@ -1438,6 +1439,7 @@ class BathyGrid(BaseGrid):
 
         for cnt, tile in enumerate(self.tiles.flat):
             if tile:
+                clear_tile = clear_existing
                 if regrid_option == 'update':
                     if not clear_existing:  # this should always be false with update, but check just in case someone wants to fully clear everything
                         # update only those tiles with new points/removed points.  If the point count hasn't changed, we skip
@@ -1447,7 +1449,7 @@ class BathyGrid(BaseGrid):
                                     self.resolutions.append(rz)
                             continue
                     if isinstance(tile, SRTile):
-                        clear_existing = True  # If we get here, it is an update and the tile needs to be updated, so we clear existing grid data
+                        clear_tile = True  # If we get here, it is an update and the tile needs to be updated, so we clear existing grid data
                 if self.sub_type in ['srtile', 'quadtile']:
                     self._load_tile_data_to_memory(tile)
                 tile_indices.append(cnt)
@@ -1463,7 +1465,7 @@ class BathyGrid(BaseGrid):
                             border_data = grid_border_data
                 else:
                     border_data = None
-                data_for_workers.append([tile, algorithm, resolution, clear_existing, regrid_option, auto_resolution, self.name, self.grid_parameters, border_data])
+                data_for_workers.append([tile, algorithm, resolution, clear_tile, regrid_option, auto_resolution, self.name, self.grid_parameters, border_data])
                 chunk_index += 1
                 if chunk_index == chunks_at_a_time:
                     print('processing surface: group {} out of {}'.format(cur_run, total_runs))
-- 
2.43.0


From 59d5838df21c571bdfd0710305c80f1fab468a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 30/51] fix: a refused grid call (no points, resolution not a
 power of two) leaves the grid as it was

---
 bathygrid/bgrid.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 842a9c8..8b2ec76 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -14,7 +14,8 @@ from typing import Union
 from bathygrid.grids import BaseGrid
 from bathygrid.tile import SRTile, Tile
 from bathygrid.utilities import bin2d_with_indices, dask_find_or_start_client, print_progress_bar, \
-    utc_seconds_to_formatted_string, formatted_string_to_utc_seconds, create_folder, gdal_raster_create, return_gdal_version
+    utc_seconds_to_formatted_string, formatted_string_to_utc_seconds, create_folder, gdal_raster_create, return_gdal_version, \
+    is_power_of_two
 from bathygrid.grid_variables import depth_resolution_lookup, maximum_chunk_dimension, sr_grid_root_names
 from bathygrid.__version__ import __version__ as bathyvers
 
@@ -1518,13 +1519,15 @@ class BathyGrid(BaseGrid):
         if clear_existing and regrid_option == 'update':
             print('Warning: regrid_option=update is ignored when using clear_existing=True.  The entire grid will be re-gridded.')
 
+        if self.is_empty:
+            raise ValueError('BathyGrid: Grid is empty, no points have been added')
+        if resolution is not None and not is_power_of_two(resolution):
+            raise ValueError(f'BathyGrid: Resolution must be a power of two, got {resolution}')
         self.grid_algorithm = algorithm
         self.grid_resolution = resolution
         self.grid_parameters = grid_parameters
         if resolution is not None:
             resolution = float(resolution)
-        if self.is_empty:
-            raise ValueError('BathyGrid: Grid is empty, no points have been added')
         auto_resolution = ''
         if resolution is None:
             auto_resolution = auto_resolution_mode.lower()
-- 
2.43.0


From ceff11a84bdcd2f16bef9b4bdd75cbc5874dac9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 31/51] fix: slope of a cell is fitted relative to the mean
 location, projected coordinates made the fit degenerate

---
 bathygrid/algorithms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bathygrid/algorithms.py b/bathygrid/algorithms.py
index 4764a10..f052976 100644
--- a/bathygrid/algorithms.py
+++ b/bathygrid/algorithms.py
@@ -267,8 +267,10 @@ def calculate_slopes(x: np.array, y: np.array, z: np.array, cell_indices: np.arr
     y_split = np.split(y[cell_sort], uidx)[1:]
 
     for row, col, x_cell, y_cell, z_cell in zip(urow, ucol, x_split, y_split, z_split):
-        # following equation of plane ax + by + c = z we set up the Ax = B matrices and do the least squares fit
-        a_data = np.column_stack([x_cell, y_cell, np.ones(x_cell.shape[0], dtype=np.float32)])
+        # following equation of plane ax + by + c = z we set up the Ax = B matrices and do the least squares fit.  Use coordinates
+        #  relative to the mean, otherwise projected coordinates (large compared to the cell) leave few significant digits for the fit
+        x_mean, y_mean = x_cell.mean(), y_cell.mean()
+        a_data = np.column_stack([x_cell - x_mean, y_cell - y_mean, np.ones(x_cell.shape[0], dtype=np.float32)])
         b_data = np.column_stack([z_cell])
         fit, residual, rnk, s = np.linalg.lstsq(a_data, b_data, rcond=None)
 
@@ -277,7 +279,7 @@ def calculate_slopes(x: np.array, y: np.array, z: np.array, cell_indices: np.arr
         # y slope is the change in z in the y direction, which is the b parameter in z = ax + by + c (or the second entry in fit)
         y_slope_grid[row, col] = fit[1][0]
         if visualize:
-            lstsq_grid[row, col] = fit[0] * lstsq_x[row, col] + fit[1] * lstsq_y[row, col] + fit[2]
+            lstsq_grid[row, col] = fit[0] * (lstsq_x[row, col] - x_mean) + fit[1] * (lstsq_y[row, col] - y_mean) + fit[2]
     if visualize:
         ax.plot_wireframe(lstsq_x.T, lstsq_y.T, lstsq_grid.T, color='k')
         ax.set_xlabel('x')
-- 
2.43.0


From 64a4cc2ecdfdb76d5fdf394cb6325d83e586afae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 32/51] fix: xarray dataset without y (or z) is refused before
 the grid is changed

---
 bathygrid/bgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 8b2ec76..b4d0705 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2167,8 +2167,8 @@ class OperationalGrid(BathyGrid):
             if 'x' not in self.data.dtype.names or 'y' not in self.data.dtype.names or 'z' not in self.data.dtype.names:
                 raise ValueError('BathyGrid: numpy structured array provided for data, but "x", "y" or "z" not found in variable names')
         elif type(self.data) == xr.Dataset:
-            if 'x' not in self.data:
-                raise ValueError('BathyGrid: xarray Dataset provided for data, but "x" or "y" not found in variable names')
+            if 'x' not in self.data or 'y' not in self.data or 'z' not in self.data:
+                raise ValueError('BathyGrid: xarray Dataset provided for data, but "x", "y" or "z" not found in variable names')
             if self.data['z'].ndim > 1:
                 raise ValueError('BathyGrid: xarray Dataset provided for data, but found multiple dimensions, must be one dimensional: {}'.format(self.data.dims))
             self._convert_dataset()  # internally we just convert xarray dataset to numpy for ease of use
-- 
2.43.0


From 24c7188a9a8b72d178980eab666ac959d1aadcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 33/51] fix: geotiff no data value is set before writing,
 blocks of zeros were read back as no data

---
 bathygrid/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/utilities.py b/bathygrid/utilities.py
index bdae9f7..f200e2d 100644
--- a/bathygrid/utilities.py
+++ b/bathygrid/utilities.py
@@ -335,6 +335,8 @@ def gdal_raster_create(output_raster: str, data: list, geo_transform: list, crs:
     dataset.SetGeoTransform(geo_transform)
     dataset.SetProjection(srs.ExportToWkt())
 
+    if driver == 'GTiff':  # gtiff driver wants one no data value for all bands, set before writing or blocks that are all zero end up as no data
+        dataset.GetRasterBand(1).SetNoDataValue(nodatavalue)
     for cnt, d in enumerate(data):
         rband = dataset.GetRasterBand(cnt + 1)
         if bandnames:
@@ -342,8 +344,6 @@ def gdal_raster_create(output_raster: str, data: list, geo_transform: list, crs:
         rband.WriteArray(d)
         if driver != 'GTiff':
             rband.SetNoDataValue(nodatavalue)
-    if driver == 'GTiff':  # gtiff driver wants one no data value for all bands
-        dataset.GetRasterBand(1).SetNoDataValue(nodatavalue)
     if driver != 'MEM':  # MEM driver relies on you returning the dataset for use
         dataset = None
     return dataset
-- 
2.43.0


From e7d0a36b25a19b3fcd8ce8765059d93bb02b872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 34/51] fix: other_constraints given to a bag export is written
 to the bag

---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index b4d0705..282bcfe 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2382,7 +2382,7 @@ class OperationalGrid(BathyGrid):
                        'VAR_POSITION_NAME=' + position_name, 'VAR_DATE=' + attr_date, 'VAR_VERT_WKT=' + vert_crs,
                        'VAR_ABSTRACT=' + abstract, 'VAR_PROCESS_STEP_DESCRIPTION=' + process_step_description,
                        'VAR_DATETIME=' + attr_datetime, 'VAR_RESTRICTION_CODE=' + restriction_code,
-                       'VAR_OTHER_CONSTRAINTS=' + other_constraints, 'VAR_CLASSIFICATION=' + classification,
+                       'VAR_RESTRICTION_OTHER_CONSTRAINTS=' + other_constraints, 'VAR_CLASSIFICATION=' + classification,
                        'VAR_SECURITY_USER_NOTE=' + security_user_note]
 
         lyrtranslator = {'depth': 'Depth', 'density': 'Density', 'elevation': 'Elevation', 'vertical_uncertainty': 'Uncertainty',
-- 
2.43.0


From 3b4d6f2b68e492d4238b2b1df0049c56deaeaaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 35/51] fix: vertical coordinate system of a bag is positive up
 like its elevation

---
 bathygrid/bgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 282bcfe..24862fa 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2375,8 +2375,8 @@ class OperationalGrid(BathyGrid):
             process_step_description = 'Generated By GDAL {}'.format(return_gdal_version())
         if not vert_crs:
             vert_crs = 'VERT_CS["unknown", VERT_DATUM["unknown", 2000]]'
-        vert_crs.replace('"depth (D)",down', '"gravity-related height (H),up')  # WKT2
-        vert_crs.replace('"Depth",DOWN', '"Gravity-related height",UP')  # WKT1
+        vert_crs = vert_crs.replace('"depth (D)",down', '"gravity-related height (H)",up')  # WKT2
+        vert_crs = vert_crs.replace('"Depth",DOWN', '"Gravity-related height",UP')  # WKT1
 
         bag_options = ['VAR_INDIVIDUAL_NAME=' + individual_name, 'VAR_ORGANISATION_NAME=' + organizational_name,
                        'VAR_POSITION_NAME=' + position_name, 'VAR_DATE=' + attr_date, 'VAR_VERT_WKT=' + vert_crs,
-- 
2.43.0


From 33c2b00249477a33f4bd559d964b3bf356d89228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:34 +0000
Subject: [PATCH 36/51] fix: a folder path that ends with a separator makes the
 new folder next to the existing one, not in it

---
 bathygrid/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/utilities.py b/bathygrid/utilities.py
index f200e2d..132a12d 100644
--- a/bathygrid/utilities.py
+++ b/bathygrid/utilities.py
@@ -86,6 +86,8 @@ def create_folder(output_directory: str, fldrname: str):
         path to the created folder
     """
 
+    if not fldrname:  # the path ended with a separator
+        output_directory, fldrname = os.path.split(output_directory)
     if output_directory:
         os.makedirs(output_directory, exist_ok=True)
     tstmp = datetime.utcnow().strftime('%Y%m%d_%H%M%S')
-- 
2.43.0


From fe7611ec9e6b6922efcb20acd49a7e5dc87df00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:34 +0000
Subject: [PATCH 37/51] fix: several new folders next to an existing one can be
 created within the same second

---
 bathygrid/utilities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bathygrid/utilities.py b/bathygrid/utilities.py
index 132a12d..c070ffa 100644
--- a/bathygrid/utilities.py
+++ b/bathygrid/utilities.py
@@ -98,7 +98,11 @@ def create_folder(output_directory: str, fldrname: str):
         if not os.listdir(os.path.join(output_directory, fldrname)):  # if the folder is empty, we can still use it
             fldr_path = os.path.join(output_directory, fldrname)
         else:
-            fldr_path = os.path.join(output_directory, fldrname + '_{}'.format(tstmp))
+            tagged_path = os.path.join(output_directory, fldrname + '_{}'.format(tstmp))
+            fldr_path, cnt = tagged_path, 1
+            while os.path.exists(fldr_path):  # more than one folder in the same second
+                fldr_path = '{}_{}'.format(tagged_path, cnt)
+                cnt += 1
             os.mkdir(fldr_path)
     return fldr_path
 
-- 
2.43.0


From f2b9359a53bbf04ef8116f3e04c0c4b93a4ad80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 38/51] fix: a grid with tiles that are not gridded yet still
 returns the surface it has

---
 bathygrid/bgrid.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 24862fa..031de5f 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -105,8 +105,8 @@ class BathyGrid(BaseGrid):
     @property
     def no_grid(self):
         """
-        Simple check to see if this instance contains gridded data or not.  Looks for the first existing Tile and checks
-        if that Tile has a grid.
+        Simple check to see if this instance contains gridded data or not.  Looks for a Tile that has a grid, tiles that
+        were added since the last gridding do not have one yet.
 
         Returns
         -------
@@ -120,13 +120,10 @@ class BathyGrid(BaseGrid):
         for tile in self.tiles.flat:
             if tile:
                 if isinstance(tile, BathyGrid):
-                    for subtile in tile.tiles.flat:
-                        if subtile:
-                            tile = subtile
-                if tile.cells:
+                    if not tile.no_grid:
+                        return False
+                elif tile.cells:
                     return False
-                else:
-                    return True
         return True
 
     @property
@@ -198,14 +195,15 @@ class BathyGrid(BaseGrid):
     @property
     def layer_names(self):
         """
-        Get the existing layer names in the tiles by checking the first real tile
+        Get the existing layer names in the tiles by checking the first real tile that has layers
         """
 
         if self.tiles is not None:
             for tile in self.tiles.flat:
                 if tile:
                     layernames = tile.layer_names
-                    return layernames
+                    if layernames:
+                        return layernames
         return []
 
     @property
@@ -856,6 +854,8 @@ class BathyGrid(BaseGrid):
         data_col, data_row = row_number * tile_cell_count, column_number * tile_cell_count
         geo = tile.get_geotransform(resolution)
         data = {}
+        if isinstance(tile, BathyGrid) and tile.no_grid:  # this subgrid was added since the last gridding
+            geo, layer = None, []
         for cnt, lyr in enumerate(layer):
             newdata = tile.get_layers_by_name(lyr, resolution, nodatavalue=nodatavalue, z_positive_up=z_positive_up)
             if newdata is not None:
-- 
2.43.0


From 01a9eed9b8eaec98a4b728bc3e2d8793b529c412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:34 +0000
Subject: [PATCH 39/51] fix: slopes and container layers can be queried when
 there are points that are not gridded yet

---
 bathygrid/tile.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index 58673d7..ca08c0d 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -361,6 +361,20 @@ class SRTile(Tile):
             if 'y_slope' in self.cells[resolution]:
                 self.cells[resolution].pop('y_slope')
 
+    def _return_cell_indices(self, resolution: float):
+        """
+        Return the cell index of each point in the tile.  Points that were added since the last gridding are not in a cell
+        yet (-1), get the index for those here, so that slopes and container queries work with these points.
+        """
+
+        cindx = np.array(self.cell_indices[resolution])
+        new_points = cindx == -1
+        if new_points.any():
+            x_val, y_val = np.array(self.data['x']), np.array(self.data['y'])
+            cindx[new_points] = bin2d_with_indices(x_val[new_points], y_val[new_points], np.array(self.cell_edges_x[resolution]),
+                                                   np.array(self.cell_edges_y[resolution]))
+        return cindx
+
     def _grid_algorithm_initialize(self, resolution: float, only_container: str = None):
         vert_val = np.array([])
         horiz_val = np.array([])
@@ -386,12 +400,9 @@ class SRTile(Tile):
             depth_val = self.data['z']
         if not isinstance(self.data, np.ndarray):
             depth_val = depth_val.compute()
+        cindx = self._return_cell_indices(resolution)
         if only_container:
-            cindx = self.cell_indices[resolution][self.container[only_container][0]:self.container[only_container][1]]
-        else:
-            cindx = self.cell_indices[resolution]
-        if not isinstance(cindx, np.ndarray):
-            cindx = cindx.compute()
+            cindx = cindx[self.container[only_container][0]:self.container[only_container][1]]
         return vert_val, horiz_val, depth_val, vert_grid, horiz_grid, cindx
 
     def _cube_grid_algorithm_initialize(self, data: np.ndarray, resolution: float, only_container: str = None):
@@ -519,10 +530,7 @@ class SRTile(Tile):
             x_val = self.data['x']
             y_val = self.data['y']
             depth_val = self.data['z']
-        if not isinstance(self.cell_indices[resolution], np.ndarray):
-            cindx = self.cell_indices[resolution].compute()
-        else:
-            cindx = self.cell_indices[resolution]
+        cindx = self._return_cell_indices(resolution)
         if not isinstance(self.cell_edges_x[resolution], np.ndarray):
             cedgex = self.cell_edges_x[resolution].compute()
             cedgey = self.cell_edges_y[resolution].compute()
-- 
2.43.0


From 037cd31e1e42dec6eecdcb74f33787fc9e058ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:58 +0000
Subject: [PATCH 40/51] fix: chunks of tiles can be retrieved without a
 resolution when the grid has only one

---
 bathygrid/bgrid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 031de5f..5c339d7 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1172,6 +1172,10 @@ class BathyGrid(BaseGrid):
 
         if isinstance(layer, str):
             layer = [layer]
+        if not resolution:
+            if len(self.resolutions) > 1:
+                raise ValueError('BathyGrid: you must specify a resolution to return layer data when multiple resolutions are found')
+            resolution = self.resolutions[0]
         if override_maximum_chunk_dimension:
             max_dimension = override_maximum_chunk_dimension
         else:
-- 
2.43.0


From c56c8e3422ce4a1e1db7dccd5b5a1810da979cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 41/51] fix: the CUBE surface of one container can be queried

---
 bathygrid/tile.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index ca08c0d..bb051ff 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -418,25 +418,21 @@ class SRTile(Tile):
             hypcnt_grid = self.cells[resolution]['hypothesis_count']
             hypratio_grid = self.cells[resolution]['hypothesis_ratio']
         else:
-            totalunc_grid = np.array([])
-            hypcnt_grid = np.array([])
-            hypratio_grid = np.array([])
+            grid_shape = self.cells[resolution][self.depth_key].shape
+            totalunc_grid = np.full(grid_shape, np.float32(np.nan), dtype=np.float32)
+            hypcnt_grid = np.full(grid_shape, 0, dtype=int)
+            hypratio_grid = np.full(grid_shape, np.float32(np.nan), dtype=np.float32)
 
         if only_container:
-            depth_val = data['z'][self.container[only_container][0]:self.container[only_container][1]]
             self.cells[resolution][only_container] = np.full(self.cells[resolution][self.depth_key].shape, np.float32(np.nan), dtype=np.float32)
             self.cells[resolution][only_container + '_density'] = np.full(self.cells[resolution][self.depth_key].shape, 0, dtype=int)
-        else:
-            depth_val = data['z']
+        depth_val = data['z']
         if not isinstance(data, np.ndarray):
             depth_val = depth_val.compute()
 
+        cindx = self._return_cell_indices(resolution)
         if only_container:
-            cindx = self.cell_indices[resolution][self.container[only_container][0]:self.container[only_container][1]]
-        else:
-            cindx = self.cell_indices[resolution]
-        if not isinstance(cindx, np.ndarray):
-            cindx = cindx.compute()
+            cindx = cindx[self.container[only_container][0]:self.container[only_container][1]]
         return vert_val, horiz_val, depth_val, totalunc_grid, hypcnt_grid, hypratio_grid, cindx
 
     def _run_mean_grid(self, resolution: float, only_container: str = None):
@@ -476,6 +472,8 @@ class SRTile(Tile):
     def _run_cube_grid(self, resolution: float, grid_parameters: dict = float, only_container: str = None, border_data: np.ndarray = None):
         if border_data is not None:
             data = np.concatenate([self.data, border_data])
+        elif only_container:
+            data = self.data[self.container[only_container][0]:self.container[only_container][1]]
         else:
             data = self.data
         vert_val, horiz_val, depth_val, totalunc_grid, hypcnt_grid, hypratio_grid, cindx = self._cube_grid_algorithm_initialize(data, resolution, only_container=only_container)
-- 
2.43.0


From 974db1bd5687fc943b9292f7a15f5e997a7b7dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 42/51] fix: the parameters of the last gridding are the ones
 kept when the surface is gridded again

---
 bathygrid/tile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index bb051ff..0eeb9eb 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -732,9 +732,9 @@ class SRTile(Tile):
             self.clear_grid()
         self._clear_temp_data(resolution)
 
+        self.grid_parameters = grid_parameters
         if resolution not in self.cells or algorithm != self.algorithm:
             self.algorithm = algorithm
-            self.grid_parameters = grid_parameters
             self.new_grid(resolution, algorithm)
         if not isinstance(self.cell_edges_x[resolution], np.ndarray):
             self.cell_edges_x[resolution] = self.cell_edges_x[resolution].compute()
-- 
2.43.0


From b1db8c91c11fd81466222a6b1d1a0c609de98200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 43/51] fix: gridding in parallel gives CUBE the same border
 points as gridding in sequence

---
 bathygrid/bgrid.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 5c339d7..b629dda 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1459,10 +1459,7 @@ class BathyGrid(BaseGrid):
                     self._load_tile_data_to_memory(tile)
                 tile_indices.append(cnt)
                 if algorithm == 'cube':
-                    if auto_resolution:
-                        border_data = self.get_tile_neighbor_points(tile, tile.width / 10)
-                    else:
-                        border_data = self.get_tile_neighbor_points(tile, min(tile.width / 10, resolution * 3))
+                    border_data = self.get_tile_neighbor_points(tile, tile.width / 10)
                     if grid_border_data is not None:
                         if border_data is not None:
                             border_data = np.concatenate([border_data, grid_border_data])
-- 
2.43.0


From 347244bb63781714d3598ed8eb588335e12d3bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:28 +0000
Subject: [PATCH 44/51] fix: points whose fields do not match the points of the
 tile are refused before the grid is changed, the order of the fields is free

---
 bathygrid/bgrid.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index b629dda..0b01f22 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -4,6 +4,7 @@ import matplotlib.pyplot as plt
 from xml.etree import ElementTree as et
 from xml.dom import minidom
 import numpy as np
+from numpy.lib.recfunctions import repack_fields
 from dask.array import Array
 import xarray as xr
 from datetime import datetime
@@ -2177,6 +2178,28 @@ class OperationalGrid(BathyGrid):
             raise ValueError('QuadTree: numpy structured array or dask array with "x" and "y" as variable must be provided')
         if self.data.size == 0:
             raise ValueError('BathyGrid: provided data does not contain any points')
+        self._validate_point_fields()
+
+    def _validate_point_fields(self):
+        """
+        Points are appended to the points of the tile they are in, which requires the same fields.  Ensure that before
+        anything is changed.  The order of the fields is free, we use the order of the existing points.
+        """
+
+        flat_tiles = [] if self.tiles is None else [tile for tile in self.tiles.flat if tile]
+        while flat_tiles:
+            tile = flat_tiles.pop()
+            if isinstance(tile, BathyGrid):
+                if tile.tiles is not None:
+                    flat_tiles.extend([subtile for subtile in tile.tiles.flat if subtile])
+            elif tile.data is not None and tile.data.dtype.names != self.data.dtype.names:
+                existing_fields = list(tile.data.dtype.names)
+                if sorted(existing_fields) == sorted(self.data.dtype.names):
+                    self.data = repack_fields(self.data[existing_fields])
+                elif ((self.data['x'] >= tile.min_x) & (self.data['x'] < tile.max_x) &
+                      (self.data['y'] >= tile.min_y) & (self.data['y'] < tile.max_y)).any():
+                    raise ValueError('BathyGrid: Found existing points with fields {}, new points with fields {} must match'.format(existing_fields,
+                                                                                                                                  list(self.data.dtype.names)))
 
     def save(self, folder_path: str = None, progress_bar: bool = True):
         """
-- 
2.43.0


From ca041221b056d0d11ce618af42c703093f3e2052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 45/51] fix: look up tuples of y locations, tuples of x
 locations were accepted already

---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 0b01f22..2b736e6 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1829,7 +1829,7 @@ class BathyGrid(BaseGrid):
         asarrays = True
         if isinstance(x_loc, (tuple, list)):
             x_loc = np.array(list(x_loc))
-        if isinstance(y_loc, list):
+        if isinstance(y_loc, (tuple, list)):
             y_loc = np.array(list(y_loc))
         if isinstance(x_loc, np.ndarray) and isinstance(y_loc, np.ndarray) and x_loc.shape != y_loc.shape:
             raise ValueError('x and y locations must be the same shape, x_loc:{} y_loc:{}'.format(x_loc, y_loc))
-- 
2.43.0


From 31e46ee315eeb17eade19c670485b9f9f7536f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 46/51] fix: look up single locations that are numpy integers
 or single precision numbers

---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 2b736e6..11b4b37 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1833,7 +1833,7 @@ class BathyGrid(BaseGrid):
             y_loc = np.array(list(y_loc))
         if isinstance(x_loc, np.ndarray) and isinstance(y_loc, np.ndarray) and x_loc.shape != y_loc.shape:
             raise ValueError('x and y locations must be the same shape, x_loc:{} y_loc:{}'.format(x_loc, y_loc))
-        if isinstance(x_loc, (float, int)) or isinstance(y_loc, (float, int)):
+        if isinstance(x_loc, (float, int, np.number)) or isinstance(y_loc, (float, int, np.number)):
             try:
                 x_loc = float(x_loc)
                 y_loc = float(y_loc)
-- 
2.43.0


From 9fefbb4901a03effba43bafb42a71e664955a9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:22 +0000
Subject: [PATCH 47/51] fix: accept Proj4 strings as coordinate system when the
 GDAL bindings raise exceptions

---
 bathygrid/utilities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bathygrid/utilities.py b/bathygrid/utilities.py
index c070ffa..047e326 100644
--- a/bathygrid/utilities.py
+++ b/bathygrid/utilities.py
@@ -293,7 +293,10 @@ def crs_to_osgeo(input_crs: Union[CRS, str, int]):
             if err:
                 raise ValueError('Error trying to ImportFromEPSG: {}'.format(epsg))
         except ValueError:  # a wkt or proj4 is provided
-            err = crs.ImportFromWkt(input_crs)
+            try:
+                err = crs.ImportFromWkt(input_crs)
+            except RuntimeError:  # with osr.UseExceptions, not a wkt
+                err = 1
             if err:
                 err = crs.ImportFromProj4(input_crs)
                 if err:
-- 
2.43.0


From de52346459f73adb4ce0dfb626ee20aac35ea33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:56 +0000
Subject: [PATCH 48/51] fix: bin points whose x and y dask arrays are
 partitioned differently

The partitions of x and y were paired one by one, so with another number of
partitions points were dropped or put in the wrong bin.
---
 bathygrid/utilities.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bathygrid/utilities.py b/bathygrid/utilities.py
index 047e326..402ac80 100644
--- a/bathygrid/utilities.py
+++ b/bathygrid/utilities.py
@@ -183,11 +183,13 @@ def bin2d_with_indices(x: Union[darray, np.array], y: Union[darray, np.array], x
     base_indices = np.arange(xshape * yshape).reshape(yshape, xshape)
     total_x_idx = []
     total_y_idx = []
-    for x, y in zip(xdata, ydata):
+    for x in xdata:  # x and y are not necessarily in the same partitions
         if isdask:
             x = x.compute()
-            y = y.compute()
         total_x_idx.append(np.searchsorted(x_edges, x, side='right') - 1)
+    for y in ydata:
+        if isdask:
+            y = y.compute()
         total_y_idx.append(np.searchsorted(y_edges, y, side='right') - 1)
     total_x_idx = np.concatenate(total_x_idx)
     total_y_idx = np.concatenate(total_y_idx)
-- 
2.43.0


From 1ad070058751171df08e4b2f80c110ecbc803047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:56 +0000
Subject: [PATCH 49/51] fix: geotransforms and tile boundaries keep positions
 of large numbers

They were rounded to single precision, half a meter for northings above
4194304, so tiles, chunks and exported rasters of grids with such an origin or
with small tiles were out of place.
---
 bathygrid/bgrid.py | 6 +++---
 bathygrid/grids.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 11b4b37..8feb2db 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -339,7 +339,7 @@ class BathyGrid(BaseGrid):
         [x origin, x pixel size, x rotation, y origin, y rotation, -y pixel size]
         """
 
-        parent_transform = [np.float32(self.min_x), resolution, 0, np.float32(self.max_y), 0, -resolution]
+        parent_transform = [float(self.min_x), resolution, 0, float(self.max_y), 0, -resolution]
 
         return parent_transform
 
@@ -881,8 +881,8 @@ class BathyGrid(BaseGrid):
         """
 
         cellboundaries_x, cellboundaries_y = np.meshgrid(self.tile_edges_x, self.tile_edges_y)
-        total_x = np.zeros((cellboundaries_x.shape[0], cellboundaries_x.shape[1] * 5), dtype=np.float32)
-        total_y = np.zeros((cellboundaries_x.shape[0], cellboundaries_x.shape[1] * 5), dtype=np.float32)
+        total_x = np.zeros((cellboundaries_x.shape[0], cellboundaries_x.shape[1] * 5), dtype=np.float64)
+        total_y = np.zeros((cellboundaries_x.shape[0], cellboundaries_x.shape[1] * 5), dtype=np.float64)
         total_x[:, ::5] = cellboundaries_x
         total_y[:, ::5] = cellboundaries_y
         total_x[:, 1::5] = cellboundaries_x + self.tile_size
diff --git a/bathygrid/grids.py b/bathygrid/grids.py
index 57b56b9..0ade2ab 100644
--- a/bathygrid/grids.py
+++ b/bathygrid/grids.py
@@ -309,6 +309,6 @@ class TileGrid(Grid):
         [x origin, x pixel size, x rotation, y origin, y rotation, -y pixel size]
         """
         if resolution in self.cells:
-            return [np.float32(self.min_x), resolution, 0, np.float32(self.max_y), 0, -resolution]
+            return [float(self.min_x), resolution, 0, float(self.max_y), 0, -resolution]
         else:
             return None
-- 
2.43.0


From b4f2a4cebb06700ef7e3d1a0c983c10c5e82d453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:56 +0000
Subject: [PATCH 50/51] fix: BAG uncertainty limits with cells that have no
 uncertainty

The no data value was taken as the maximum uncertainty.
---
 bathygrid/bgrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 8feb2db..402bf28 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2005,7 +2005,8 @@ def _correct_for_layer_metadata(resfile: str, data: list, nodatavalue: float):
             validdata = data[0] != nodatavalue
             r5['BAG_root']['elevation'].attrs['Maximum Elevation Value'] = np.float32(np.max(data[0][validdata]))
             r5['BAG_root']['elevation'].attrs['Minimum Elevation Value'] = np.float32(np.min(data[0][validdata]))
-            if len(data) == 2:
+            validdata = data[-1] != nodatavalue  # there can be elevations without an uncertainty
+            if len(data) == 2 and validdata.any():
                 r5['BAG_root']['uncertainty'].attrs['Maximum Uncertainty Value'] = np.float32(np.max(data[1][validdata]))
                 r5['BAG_root']['uncertainty'].attrs['Minimum Uncertainty Value'] = np.float32(np.min(data[1][validdata]))
             r5.close()
-- 
2.43.0


From e1826c3afdd25bcb307a22eb25f5384b96b6ba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:04 +0000
Subject: [PATCH 51/51] fix: look up single locations with no-data values that
 single precision does not hold

layer_values_at_xy compared the single precision no-data value with the double precision one, so a single
location was answered with the no-data value without looking at the surface. The layers of whole numbers have
a whole no-data value, which was taken for a value of the surface when the no-data value has decimals.
---
 bathygrid/bgrid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 402bf28..8fa9db7 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1877,6 +1877,9 @@ class BathyGrid(BaseGrid):
             1d array of the same size as x_loc/y_loc with the layer values at the locations
         """
 
+        if layer in ['density', 'hypothesis_count'] and not np.isnan(nodatavalue):  # these layers have an integer based nodatavalue
+            nodatavalue = int(nodatavalue)
+        nodatavalue = np.float32(nodatavalue)  # as it is in the layers, so that we find the locations without a value
         asarrays, query_resolution, layer_values, x_loc, y_loc = self._validate_layer_query(x_loc, y_loc, layer, resolution, nodatavalue)
         for rez in query_resolution:
             if np.isnan(nodatavalue):
-- 
2.43.0

