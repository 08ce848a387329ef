From e0cf24b2243bd4d832b0828ad8533ea14e06836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:28 +0000
Subject: [PATCH 01/51] fix: density layers could not be queried, np.int no
 longer exists in numpy

---
 bathygrid/bgrid.py | 4 ++--
 bathygrid/tile.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 1392517..3b4b34b 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -506,7 +506,7 @@ class BathyGrid(BaseGrid):
         elif layername in ['density', 'hypothesis_count']:
             # density has to have an integer based nodatavalue
             try:
-                nodatavalue = np.int(nodatavalue)
+                nodatavalue = int(nodatavalue)
             except ValueError:
                 nodatavalue = 0
         y_size = self.height / resolution
@@ -1040,7 +1040,7 @@ class BathyGrid(BaseGrid):
             elif lyr in ['density', 'hypothesis_count']:
                 # density has to have an integer based nodatavalue
                 try:
-                    nodatavalue = np.int(nodatavalue)
+                    nodatavalue = int(nodatavalue)
                 except ValueError:
                     nodatavalue = 0
             finaldata[lyr] = np.full((max(curdcol) + cells_per_tile, max(curdrow) + cells_per_tile), nodatavalue)
diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index 5f44f47..990b734 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -799,7 +799,7 @@ class SRTile(Tile):
         elif layer in ['density', 'hypothesis_count']:
             # density has to have an integer based nodatavalue
             try:
-                nodatavalue = np.int(nodatavalue)
+                nodatavalue = int(nodatavalue)
             except ValueError:
                 nodatavalue = 0
         else:
-- 
2.43.0


From f3d63e0c8592ae8f444dced1ac6020c042968b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 02/51] fix: shoalest uncertainty was taken from the wrong
 point

---
 bathygrid/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/algorithms.py b/bathygrid/algorithms.py
index c08d628..30258f7 100644
--- a/bathygrid/algorithms.py
+++ b/bathygrid/algorithms.py
@@ -123,8 +123,8 @@ def np_grid_shoalest(depth: np.array, cell_indices: np.array, grid: np.ndarray,
 
     depth_idx = None
     if tvu_enabled or thu_enabled:
-        depth_sort = np.argsort(depth)
-        depth_idx = np.searchsorted(depth[depth_sort], depth_min)
+        # index of the shoalest point in each cell, sorted by cell and then by depth so the shoalest is first in its cell
+        depth_idx = np.lexsort((depth, cell_indices))[uidx]
     if tvu_enabled:
         tvu_shoalest = tvu[depth_idx]
         tvu_grid[urow, ucol] = tvu_shoalest
-- 
2.43.0


From ba1526881061c067df7d76919eab6501c55579d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 03/51] fix: variable resolution subgrids lost the backscatter
 setting

---
 bathygrid/maingrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/maingrid.py b/bathygrid/maingrid.py
index 88b81c2..586e050 100644
--- a/bathygrid/maingrid.py
+++ b/bathygrid/maingrid.py
@@ -58,7 +58,7 @@ class VRGridTile(SRGrid):
             ofolder = ''
         return self.storage_class(min_x=tile_x_origin, min_y=tile_y_origin, max_x=tile_x_origin + self.tile_size,
                                   max_y=tile_y_origin + self.tile_size, tile_size=self.subtile_size,
-                                  set_extents_manually=True, output_folder=ofolder)
+                                  set_extents_manually=True, output_folder=ofolder, is_backscatter=self.is_backscatter)
 
 
 class SRGridZarr(ZarrGrid):
@@ -116,4 +116,4 @@ class VRGridTileZarr(SRGridZarr):
             ofolder = ''
         return self.storage_class(min_x=tile_x_origin, min_y=tile_y_origin, max_x=tile_x_origin + self.tile_size,
                                   max_y=tile_y_origin + self.tile_size, tile_size=self.subtile_size,
-                                  set_extents_manually=True, output_folder=ofolder)
+                                  set_extents_manually=True, output_folder=ofolder, is_backscatter=self.is_backscatter)
-- 
2.43.0


From 0de6b2cae257f6c29a24103072811f7cf25c2b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 04/51] fix: update gridding cleared tiles that had not changed

---
 bathygrid/bgrid.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 3b4b34b..fbb9ed9 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1309,6 +1309,7 @@ class BathyGrid(BaseGrid):
             if progress_bar:
                 print_progress_bar(cnt + 1, self.tiles.size, 'Gridding {} - {}:'.format(self.name, algorithm))
             if tile:
+                clear_tile = clear_existing
                 if regrid_option == 'update':
                     if not clear_existing:  # this should always be false with update, but check just in case someone wants to fully clear everything
                         # update only those tiles with new points/removed points.  If the point count hasn't changed, we skip
@@ -1318,7 +1319,7 @@ class BathyGrid(BaseGrid):
                                     self.resolutions.append(rz)
                             continue
                     if isinstance(tile, SRTile):
-                        clear_existing = True  # If we get here, it is an update and the tile needs to be updated, so we clear existing grid data
+                        clear_tile = True  # If we get here, it is an update and the tile needs to be updated, so we clear existing grid data
                 if algorithm == 'cube':
                     border_data = self.get_tile_neighbor_points(tile, tile.width / 10)
                     if grid_border_data is not None:
@@ -1329,13 +1330,13 @@ class BathyGrid(BaseGrid):
                 else:
                     border_data = None
                 if isinstance(tile, BathyGrid) and auto_resolution:  # vrgrid subgrids can calc their own resolution
-                    rez = tile.grid(algorithm, None, auto_resolution_mode=auto_resolution, clear_existing=clear_existing, regrid_option=regrid_option, progress_bar=False,
+                    rez = tile.grid(algorithm, None, auto_resolution_mode=auto_resolution, clear_existing=clear_tile, regrid_option=regrid_option, progress_bar=False,
                                     grid_parameters=self.grid_parameters, border_data=border_data)
                 elif isinstance(tile, SRTile) and auto_resolution and self.name not in sr_grid_root_names:  # tiles in vrgridtile can be different resolutions
-                    rez = tile.grid(algorithm, None, auto_resolution_mode=auto_resolution, clear_existing=clear_existing, regrid_option=regrid_option, progress_bar=False,
+                    rez = tile.grid(algorithm, None, auto_resolution_mode=auto_resolution, clear_existing=clear_tile, regrid_option=regrid_option, progress_bar=False,
                                     grid_parameters=self.grid_parameters, border_data=border_data)
                 else:
-                    rez = tile.grid(algorithm, resolution, auto_resolution_mode=auto_resolution, clear_existing=clear_existing, regrid_option=regrid_option, progress_bar=False,
+                    rez = tile.grid(algorithm, resolution, auto_resolution_mode=auto_resolution, clear_existing=clear_tile, regrid_option=regrid_option, progress_bar=False,
                                     grid_parameters=self.grid_parameters, border_data=border_data)
                 if isinstance(rez, float) or isinstance(rez, int):
                     rez = [rez]
@@ -1418,6 +1419,7 @@ class BathyGrid(BaseGrid):
 
         for cnt, tile in enumerate(self.tiles.flat):
             if tile:
+                clear_tile = clear_existing
                 if regrid_option == 'update':
                     if not clear_existing:  # this should always be false with update, but check just in case someone wants to fully clear everything
                         # update only those tiles with new points/removed points.  If the point count hasn't changed, we skip
@@ -1427,7 +1429,7 @@ class BathyGrid(BaseGrid):
                                     self.resolutions.append(rz)
                             continue
                     if isinstance(tile, SRTile):
-                        clear_existing = True  # If we get here, it is an update and the tile needs to be updated, so we clear existing grid data
+                        clear_tile = True  # If we get here, it is an update and the tile needs to be updated, so we clear existing grid data
                 if self.sub_type in ['srtile', 'quadtile']:
                     self._load_tile_data_to_memory(tile)
                 tile_indices.append(cnt)
@@ -1443,7 +1445,7 @@ class BathyGrid(BaseGrid):
                             border_data = grid_border_data
                 else:
                     border_data = None
-                data_for_workers.append([tile, algorithm, resolution, clear_existing, regrid_option, auto_resolution, self.name, self.grid_parameters, border_data])
+                data_for_workers.append([tile, algorithm, resolution, clear_tile, regrid_option, auto_resolution, self.name, self.grid_parameters, border_data])
                 chunk_index += 1
                 if chunk_index == chunks_at_a_time:
                     print('processing surface: group {} out of {}'.format(cur_run, total_runs))
-- 
2.43.0


From f53b20c62341498ad41f15d526110f76ca5ad4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 05/51] fix: automatic resolution failed for variable
 resolution grids with zero mean depth, although not used

---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index fbb9ed9..f745feb 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1509,7 +1509,7 @@ class BathyGrid(BaseGrid):
         if resolution is None:
             auto_resolution = auto_resolution_mode.lower()
             self.grid_resolution = 'AUTO_{}'.format(auto_resolution_mode).upper()
-            if self.name != 'VRGridTile_Root':
+            if self.name in sr_grid_root_names:  # otherwise each tile determines its own resolution
                 if auto_resolution == 'depth':
                     resolution = self._calculate_resolution_lookup()
                 elif auto_resolution == 'density':
-- 
2.43.0


From fdaf9078d01dc3d93405d6300272d868d4617034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 06/51] fix: number of tiles and mean depth were not saved
 after adding points

---
 bathygrid/bgrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index f745feb..5fb5f10 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -704,6 +704,7 @@ class BathyGrid(BaseGrid):
         self._update_tiles(container_name, progress_bar)
         self._update_mean_depth()
         self.data = None  # points are in the tiles, clear this attribute to free up memory
+        self._save_grid()  # number of tiles and mean depth are only known once the points are in the tiles
 
     def _remove_tile(self, flat_index: int):
         """
-- 
2.43.0


From a2124261170c981876041fce23c2c5393a032fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 07/51] fix: subgrids without points came back as empty tiles
 on load

---
 bathygrid/backends.py | 2 ++
 bathygrid/bgrid.py    | 1 +
 2 files changed, 3 insertions(+)

diff --git a/bathygrid/backends.py b/bathygrid/backends.py
index 0d1e6f4..8887682 100644
--- a/bathygrid/backends.py
+++ b/bathygrid/backends.py
@@ -347,6 +347,8 @@ class BaseStorage(OperationalGrid):
                         newgrid = storage_cls()
                         newgrid.name = os.path.split(subgrid_folder)[1]
                         newgrid.load(root_folder)
+                        if newgrid.is_empty:  # all points were removed from this subgrid, only the folder is left
+                            newgrid = None
                         self.tiles[row][col] = newgrid
                     else:
                         self.tiles[row][col] = None
diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 5fb5f10..a39577c 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -126,6 +126,7 @@ class BathyGrid(BaseGrid):
                     return False
                 else:
                     return True
+        return True
 
     @property
     def has_vertical_uncertainty(self):
-- 
2.43.0


From e771de30de8a1f6dd06053bfe4320b91a17a72f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:34 +0000
Subject: [PATCH 08/51] fix: an interrupted remove_points could not be repeated

---
 bathygrid/bgrid.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index a39577c..77d02ee 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -717,8 +717,8 @@ class BathyGrid(BaseGrid):
         if tile:
             if self.existing_tile_mask is not None and self.existing_tile_mask.any():
                 self.existing_tile_mask.flat[flat_index] = False
-            self.number_of_tiles -= 1
             self.tiles.flat[flat_index] = None
+            self.number_of_tiles = np.count_nonzero(self.tiles != None)
 
     def remove_points(self, container_name: str = None, progress_bar: bool = True):
         """
@@ -734,9 +734,7 @@ class BathyGrid(BaseGrid):
         """
 
         if container_name in self.container:
-            self.container.pop(container_name)
-            self.container_timestamp.pop(container_name)
-            if not self.is_empty:
+            if self.tiles is not None:
                 flat_tiles = self.tiles.ravel()
                 if progress_bar:
                     print_progress_bar(0, len(flat_tiles), 'Removing {}:'.format(container_name))
@@ -753,7 +751,13 @@ class BathyGrid(BaseGrid):
                         self._load_tile(cnt, only_points=True)
             if self.is_empty:
                 self.tiles = None
-            self._save_grid()
+            # the container is listed until all the points are gone, so that remove can be repeated if something fails
+            file_list, timestamp = self.container.pop(container_name), self.container_timestamp.pop(container_name)
+            try:
+                self._save_grid()
+            except BaseException:
+                self.container[container_name], self.container_timestamp[container_name] = file_list, timestamp
+                raise
 
     def get_tiles_by_resolution(self, resolution: float = None, layer: Union[str, list] = 'depth',
                                 nodatavalue: float = np.float32(np.nan), z_positive_up: bool = False):
-- 
2.43.0


From c2f3e700fece6fff576a5355f9814e2f1f96bc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:34 +0000
Subject: [PATCH 09/51] fix: stale tile mask after all points were removed and
 new points added elsewhere

---
 bathygrid/grids.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/grids.py b/bathygrid/grids.py
index 86bbbfe..b56018e 100644
--- a/bathygrid/grids.py
+++ b/bathygrid/grids.py
@@ -127,6 +127,8 @@ class BaseGrid(Grid):
             y_corner_coord = np.argwhere(tile_y_origin == self.tile_y_origin[0][0])[0][0]
             x_corner_coord = np.argwhere(tile_x_origin == self.tile_x_origin[0][0])[0][1]
             self.existing_tile_mask[y_corner_coord:y_corner_coord + existing_tile_shape[0], x_corner_coord:x_corner_coord + existing_tile_shape[1]] = True
+        else:
+            self.existing_tile_mask = None  # the mask of a previous, now removed, set of tiles does not match the new grid
 
         self.tile_x_origin, self.tile_y_origin = tile_x_origin, tile_y_origin
 
-- 
2.43.0


From bd6ce3c4ee63501636e1ab1f1d9fe4c16d523217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:34 +0000
Subject: [PATCH 10/51] fix: extents of a grid with an origin other than zero
 did not contain its points

---
 bathygrid/grids.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bathygrid/grids.py b/bathygrid/grids.py
index b56018e..3f6c953 100644
--- a/bathygrid/grids.py
+++ b/bathygrid/grids.py
@@ -91,10 +91,10 @@ class BaseGrid(Grid):
         If this BathyGrid is allowed to grow, we extend the boundaries by integer increments of tile_size
         """
         if self.can_grow:
-            nearest_lower_x = np.floor((self.min_x - self.origin_x) / self.tile_size) * self.tile_size
-            nearest_higher_x = np.ceil((self.max_x - self.origin_x) / self.tile_size) * self.tile_size
-            nearest_lower_y = np.floor((self.min_y - self.origin_y) / self.tile_size) * self.tile_size
-            nearest_higher_y = np.ceil((self.max_y - self.origin_y) / self.tile_size) * self.tile_size
+            nearest_lower_x = np.floor((self.min_x - self.origin_x) / self.tile_size) * self.tile_size + self.origin_x
+            nearest_higher_x = np.ceil((self.max_x - self.origin_x) / self.tile_size) * self.tile_size + self.origin_x
+            nearest_lower_y = np.floor((self.min_y - self.origin_y) / self.tile_size) * self.tile_size + self.origin_y
+            nearest_higher_y = np.ceil((self.max_y - self.origin_y) / self.tile_size) * self.tile_size + self.origin_y
             if nearest_higher_x == self.max_x:  # higher value cant be equal, our binning relies on it being less than
                 nearest_higher_x += self.tile_size
             if nearest_higher_y == self.max_y:
-- 
2.43.0


From 8294f261d5e96e89cb138e09bc40ce90ea10ea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 11/51] fix: refused data changed the coordinate system or time
 of the grid

---
 bathygrid/bgrid.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 77d02ee..12289d3 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -372,12 +372,19 @@ class BathyGrid(BaseGrid):
             if self.epsg != int(epsg):
                 raise ValueError('BathyGrid: Found existing coordinate system {}, new coordinate system {} must match'.format(self.epsg,
                                                                                                                               epsg))
-        if epsg:
-            self.epsg = int(epsg)
         if self.vertical_reference and (self.vertical_reference != vertical_reference):
-            if not (self.vertical_reference.find('MLLW') != -1 and vertical_reference.find('MLLW') != -1):
+            if not vertical_reference or not (self.vertical_reference.find('MLLW') != -1 and vertical_reference.find('MLLW') != -1):
                 raise ValueError('BathyGrid: Found existing vertical reference {}, new vertical reference {} must match'.format(self.vertical_reference,
                                                                                                                                 vertical_reference))
+        # all of the arguments are checked before we change anything
+        new_epsg, new_min_time, new_max_time = [int(value) if value else None for value in (epsg, min_time, max_time)]
+        if new_min_time is not None:
+            utc_seconds_to_formatted_string(new_min_time)
+        if new_max_time is not None:
+            utc_seconds_to_formatted_string(new_max_time)
+
+        if epsg:
+            self.epsg = new_epsg
         if min_time:
             min_time = int(min_time)
             if self.min_time:
-- 
2.43.0


From 240bb42ed55d0c8a30a2ce895e69a0a47f0bdf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 12/51] fix: malformed points were only refused after the grid
 had been changed

---
 bathygrid/bgrid.py | 47 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 12289d3..7ddfc8e 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -535,6 +535,26 @@ class BathyGrid(BaseGrid):
         """
         pass
 
+    def _validate_point_fields(self, data: np.ndarray):
+        """
+        The points of a tile are one structured array, so points with other variables can not be added to it.
+
+        Parameters
+        ----------
+        data
+            structured array of the points that we want to add to the grid
+        """
+
+        if self.tiles is not None:
+            for tile in self.tiles.flat:
+                if isinstance(tile, BathyGrid):
+                    tile._validate_point_fields(data)
+                elif tile and tile.data is not None and tile.data.dtype.names != data.dtype.names:
+                    in_tile = (data['x'] >= tile.min_x) & (data['x'] < tile.max_x) & (data['y'] >= tile.min_y) & (data['y'] < tile.max_y)
+                    if in_tile.any():
+                        raise ValueError('BathyGrid: points have variables {}, but tile {} has points with {}'.format(data.dtype.names, tile.name,
+                                                                                                                   tile.data.dtype.names))
+
     def _save_grid(self):
         """
         inherited class can write code here to save the grid data, see backends
@@ -706,12 +726,15 @@ class BathyGrid(BaseGrid):
         if container_name in self.container:
             raise ValueError('{} is already within this bathygrid instance, remove_points first if you want to replace this data'.format(container_name))
         self.data = data
-        self._validate_input_data()
-        self._update_metadata(container_name, file_list, crs, vertical_reference, min_time, max_time)
-        self._update_base_grid()
-        self._update_tiles(container_name, progress_bar)
-        self._update_mean_depth()
-        self.data = None  # points are in the tiles, clear this attribute to free up memory
+        try:
+            self._validate_input_data()
+            self._validate_point_fields(self.data)
+            self._update_metadata(container_name, file_list, crs, vertical_reference, min_time, max_time)
+            self._update_base_grid()
+            self._update_tiles(container_name, progress_bar)
+            self._update_mean_depth()
+        finally:
+            self.data = None  # points are in the tiles, clear this attribute to free up memory
         self._save_grid()  # number of tiles and mean depth are only known once the points are in the tiles
 
     def _remove_tile(self, flat_index: int):
@@ -2151,16 +2174,20 @@ class OperationalGrid(BathyGrid):
         if type(self.data) in [np.ndarray, Array]:
             if not self.data.dtype.names:
                 raise ValueError('BathyGrid: numpy array provided for data, but no names were found, array must be a structured array')
-            if 'x' not in self.data.dtype.names or 'y' not in self.data.dtype.names:
-                raise ValueError('BathyGrid: numpy structured array provided for data, but "x" or "y" not found in variable names')
+            if not all(varname in self.data.dtype.names for varname in ('x', 'y', 'z')):
+                raise ValueError('BathyGrid: numpy structured array provided for data, but "x", "y" or "z" not found in variable names')
         elif type(self.data) == xr.Dataset:
-            if 'x' not in self.data:
-                raise ValueError('BathyGrid: xarray Dataset provided for data, but "x" or "y" not found in variable names')
+            if not all(varname in self.data for varname in ('x', 'y', 'z')):
+                raise ValueError('BathyGrid: xarray Dataset provided for data, but "x", "y" or "z" not found in variable names')
             if self.data['z'].ndim > 1:
                 raise ValueError('BathyGrid: xarray Dataset provided for data, but found multiple dimensions, must be one dimensional: {}'.format(self.data.dims))
             self._convert_dataset()  # internally we just convert xarray dataset to numpy for ease of use
         else:
             raise ValueError('QuadTree: numpy structured array or dask array with "x" and "y" as variable must be provided')
+        if self.data.ndim != 1 or not self.data.size:
+            raise ValueError('BathyGrid: expected a one dimensional array with at least one point, found shape {}'.format(self.data.shape))
+        if not np.isfinite(self.data['x']).all() or not np.isfinite(self.data['y']).all():
+            raise ValueError('BathyGrid: found points without valid "x" or "y" coordinates')
 
     def save(self, folder_path: str = None, progress_bar: bool = True):
         """
-- 
2.43.0


From 82d669686a38c71c4185ad00a9fe329856568971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 13/51] fix: refused gridding changed the algorithm and
 resolution of the grid

---
 bathygrid/bgrid.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 7ddfc8e..d040e65 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -13,7 +13,7 @@ from typing import Union
 
 from bathygrid.grids import BaseGrid
 from bathygrid.tile import SRTile, Tile
-from bathygrid.utilities import bin2d_with_indices, dask_find_or_start_client, print_progress_bar, \
+from bathygrid.utilities import bin2d_with_indices, is_power_of_two, dask_find_or_start_client, print_progress_bar, \
     utc_seconds_to_formatted_string, formatted_string_to_utc_seconds, create_folder, gdal_raster_create, return_gdal_version
 from bathygrid.grid_variables import depth_resolution_lookup, maximum_chunk_dimension, sr_grid_root_names
 from bathygrid.__version__ import __version__ as bathyvers
@@ -1534,22 +1534,28 @@ class BathyGrid(BaseGrid):
         if clear_existing and regrid_option == 'update':
             print('Warning: regrid_option=update is ignored when using clear_existing=True.  The entire grid will be re-gridded.')
 
-        self.grid_algorithm = algorithm
-        self.grid_resolution = resolution
-        self.grid_parameters = grid_parameters
-        if resolution is not None:
-            resolution = float(resolution)
         if self.is_empty:
             raise ValueError('BathyGrid: Grid is empty, no points have been added')
+        grid_resolution = resolution
+        if resolution is not None:
+            resolution = float(resolution)
+            if not is_power_of_two(resolution):
+                raise ValueError('BathyGrid: Resolution must be a power of two, got {}'.format(resolution))
         auto_resolution = ''
         if resolution is None:
             auto_resolution = auto_resolution_mode.lower()
-            self.grid_resolution = 'AUTO_{}'.format(auto_resolution_mode).upper()
+            if auto_resolution not in ['depth', 'density']:
+                raise ValueError('BathyGrid: given no resolution and an auto resolution mode of {} which is not supported'.format(auto_resolution_mode))
+            grid_resolution = 'AUTO_{}'.format(auto_resolution_mode).upper()
             if self.name in sr_grid_root_names:  # otherwise each tile determines its own resolution
                 if auto_resolution == 'depth':
                     resolution = self._calculate_resolution_lookup()
                 elif auto_resolution == 'density':
                     resolution = self.resolution_by_density()
+        # all of the arguments are checked before we change anything
+        self.grid_algorithm = algorithm
+        self.grid_resolution = grid_resolution
+        self.grid_parameters = grid_parameters
         self.resolutions = []
 
         if use_dask:
-- 
2.43.0


From 36bc2ed7706ac2730f167004da55416d6374c5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 14/51] fix: layers were mixed up when a tile has no values for
 one of the layers asked for

---
 bathygrid/bgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index d040e65..f918a4f 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1261,8 +1261,8 @@ class BathyGrid(BaseGrid):
             if tile:
                 row, col = self._tile_idx_to_row_col(cnt)
                 tile, newdata, geo, data_col, data_row, tile_cell_count = self.get_tile_data(row, col, resolution, layer, nodatavalue, z_positive_up)
-                for cnt, lyr in enumerate(newdata.keys()):
-                    data[cnt][data_col:data_col + tile_cell_count, data_row:data_row + tile_cell_count] = newdata[lyr]
+                for lyr in newdata:
+                    data[layer.index(lyr)][data_col:data_col + tile_cell_count, data_row:data_row + tile_cell_count] = newdata[lyr]
                     empty = False
         if empty:
             data = None
-- 
2.43.0


From 875b4738420e978d1c82a0a2f1fdef373a3d63c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 15/51] fix: values in the last row and column of the grid
 could not be queried

---
 bathygrid/bgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index f918a4f..139a17e 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1834,8 +1834,8 @@ class BathyGrid(BaseGrid):
             x = (np.arange(self.min_x, self.max_x, resolution) + resolution / 2)[new_mins[1]:new_maxs[1]]
             y = (np.arange(self.min_y, self.max_y, resolution) + resolution / 2)[new_mins[0]:new_maxs[0]]
         else:  # get the cell boundaries for each cell, will be one longer than the node locations option (this is what matplotlib pcolormesh wants)
-            x = np.arange(self.min_x, self.max_x, resolution)[new_mins[1]:new_maxs[1] + 1]
-            y = np.arange(self.min_y, self.max_y, resolution)[new_mins[0]:new_maxs[0] + 1]
+            x = np.append(np.arange(self.min_x, self.max_x, resolution), self.max_x)[new_mins[1]:new_maxs[1] + 1]
+            y = np.append(np.arange(self.min_y, self.max_y, resolution), self.max_y)[new_mins[0]:new_maxs[0] + 1]
         return x, y, surfs, new_mins, new_maxs
 
     def _validate_layer_query(self, x_loc: np.array, y_loc: np.array, layer: str = 'depth', resolution: float = None,
-- 
2.43.0


From e4649959da04b549cc473173bdff324c7d6cbd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 16/51] fix: layers following a density layer in a chunk got an
 integer no data value

---
 bathygrid/bgrid.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 139a17e..9a26cbe 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1072,14 +1072,16 @@ class BathyGrid(BaseGrid):
         for lyr in layers:
             if lyr in ['depth', 'intensity', 'vertical_uncertainty', 'horizontal_uncertainty', 'total_uncertainty', 'hypothesis_ratio']:
                 # ensure nodatavalue is a float32
-                nodatavalue = np.float32(nodatavalue)
+                lyr_nodatavalue = np.float32(nodatavalue)
             elif lyr in ['density', 'hypothesis_count']:
                 # density has to have an integer based nodatavalue
                 try:
-                    nodatavalue = int(nodatavalue)
+                    lyr_nodatavalue = int(nodatavalue)
                 except ValueError:
-                    nodatavalue = 0
-            finaldata[lyr] = np.full((max(curdcol) + cells_per_tile, max(curdrow) + cells_per_tile), nodatavalue)
+                    lyr_nodatavalue = 0
+            else:
+                lyr_nodatavalue = nodatavalue
+            finaldata[lyr] = np.full((max(curdcol) + cells_per_tile, max(curdrow) + cells_per_tile), lyr_nodatavalue)
             for cnt, data in enumerate(layerdata):
                 if lyr in data:
                     finaldata[lyr][curdcol[cnt]:curdcol[cnt] + cells_per_tile, curdrow[cnt]:curdrow[cnt] + cells_per_tile] = data[lyr]
-- 
2.43.0


From dae54c344d529093017383c9420829246f75cf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 17/51] fix: creating a third grid with the same name within a
 second failed

---
 bathygrid/utilities.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/bathygrid/utilities.py b/bathygrid/utilities.py
index 9f0dd53..75c9c4c 100644
--- a/bathygrid/utilities.py
+++ b/bathygrid/utilities.py
@@ -88,16 +88,18 @@ def create_folder(output_directory: str, fldrname: str):
 
     os.makedirs(output_directory, exist_ok=True)
     tstmp = datetime.utcnow().strftime('%Y%m%d_%H%M%S')
-    try:
-        fldr_path = os.path.join(output_directory, fldrname)
-        os.mkdir(fldr_path)
-    except FileExistsError:
-        if not os.listdir(os.path.join(output_directory, fldrname)):  # if the folder is empty, we can still use it
-            fldr_path = os.path.join(output_directory, fldrname)
-        else:
-            fldr_path = os.path.join(output_directory, fldrname + '_{}'.format(tstmp))
+    fldr_path = os.path.join(output_directory, fldrname)
+    count = 0
+    while True:
+        try:
             os.mkdir(fldr_path)
-    return fldr_path
+            return fldr_path
+        except FileExistsError:
+            if count == 0 and os.path.isdir(fldr_path) and not os.listdir(fldr_path):  # if the folder is empty, we can still use it
+                return fldr_path
+            # the time tag only has a resolution of one second, so include a counter if that name is in use as well
+            count += 1
+            fldr_path = os.path.join(output_directory, fldrname + '_{}'.format(tstmp) + ('_{}'.format(count) if count > 1 else ''))
 
 
 def is_power_of_two(n: Union[int, float]):
-- 
2.43.0


From de8f484e5d4b1354c0c51fff14fdde47e00da10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 18/51] fix: querying the layer of a container changed the
 layers of the tile

---
 bathygrid/tile.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index 990b734..0279837 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -816,22 +816,26 @@ class SRTile(Tile):
             resolution = list(self.cells.keys())[0]
         if layer in ['x_slope', 'y_slope']:
             self._run_slopes(resolution)
-        elif container_query:
-            if layer in self.container.keys():
-                if self.algorithm == 'mean':
-                    self._run_mean_grid(resolution, only_container=layer)
-                elif self.algorithm == 'shoalest':
-                    self._run_shoalest_grid(resolution, only_container=layer)
-                elif self.algorithm == 'cube':
-                    self._run_cube_grid(resolution, self.grid_parameters, only_container=layer)
-            else:
-                self.cells[resolution][layer] = np.full_like(self.cells[resolution][self.depth_key], nodatavalue)
-        if layer not in self.cells[resolution]:
-            raise ValueError('Tile {}: layer {} not found for resolution {}'.format(self.name, layer, resolution))
+        tile_layers = dict(self.cells[resolution])
         try:
-            data = np.copy(self.cells[resolution][layer].compute())
-        except:
-            data = np.copy(self.cells[resolution][layer])
+            if container_query:
+                if layer in self.container.keys():
+                    if self.algorithm == 'mean':
+                        self._run_mean_grid(resolution, only_container=layer)
+                    elif self.algorithm == 'shoalest':
+                        self._run_shoalest_grid(resolution, only_container=layer)
+                    elif self.algorithm == 'cube':
+                        self._run_cube_grid(resolution, self.grid_parameters, only_container=layer)
+                else:
+                    self.cells[resolution][layer] = np.full_like(self.cells[resolution][self.depth_key], nodatavalue)
+            if layer not in self.cells[resolution]:
+                raise ValueError('Tile {}: layer {} not found for resolution {}'.format(self.name, layer, resolution))
+            data = self.cells[resolution][layer]
+            if isinstance(data, darray):
+                data = data.compute()
+            data = np.copy(data)
+        finally:
+            self.cells[resolution] = tile_layers  # the layers of a container are not part of the grid
         if np.count_nonzero(np.isnan(data)) == data.size:
             return None
         if layer.lower() == 'depth' and z_positive_up:
-- 
2.43.0


From dbde39ed83ca545627b53497034fca8f5c467bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 19/51] fix: an interrupted or failed write left tiles and
 metadata on disk that were partly old and partly new

---
 bathygrid/backends.py  | 96 +++++++++++++++++++++++++++++++++++++-----
 bathygrid/tile.py      |  2 +
 bathygrid/utilities.py | 17 ++++++++
 3 files changed, 104 insertions(+), 11 deletions(-)

diff --git a/bathygrid/backends.py b/bathygrid/backends.py
index 8887682..25468c2 100644
--- a/bathygrid/backends.py
+++ b/bathygrid/backends.py
@@ -1,5 +1,6 @@
 import os
 import time
+from copy import copy
 
 import numpy as np
 import json
@@ -7,7 +8,7 @@ import dask.array as da
 
 from bathygrid.bgrid import OperationalGrid
 from bathygrid.tile import Tile, SRTile
-from bathygrid.utilities import print_progress_bar, remove_with_permissionserror
+from bathygrid.utilities import print_progress_bar, remove_with_permissionserror, replace_with_permissionserror
 from bathygrid.grid_variables import bathygrid_desired_keys, bathygrid_float_to_str, bathygrid_numpy_to_list, \
     tile_desired_keys, tile_float_to_str
 
@@ -22,6 +23,56 @@ class BaseStorage(OperationalGrid):
         super().__init__(min_x=min_x, min_y=min_y, max_x=max_x, max_y=max_y, tile_size=tile_size,
                          set_extents_manually=set_extents_manually, output_folder=output_folder, is_backscatter=is_backscatter)
 
+    def _write_folder(self, folderpath: str, write_function, replace_gridded: bool = False):
+        """
+        Write new data to a folder in such a way that the folder has either all of the new data or none of it, whatever
+        happens in between.  The new data is written to a folder next to it first, that is renamed to folderpath.commit
+        once it is complete.  From then on the data will end up in the folder, see _finish_write.
+
+        Parameters
+        ----------
+        folderpath
+            path to the folder that will contain the new data
+        write_function
+            function that writes the files/folders to the folder that is passed in as argument
+        replace_gridded
+            if True, the gridded data that is currently in the folder is removed
+        """
+
+        self._finish_write(folderpath)
+        tmp_folder = folderpath + '.tmp'
+        remove_with_permissionserror(tmp_folder)
+        os.makedirs(tmp_folder)
+        write_function(tmp_folder)
+        if replace_gridded:
+            open(os.path.join(tmp_folder, 'replace_gridded'), 'w').close()
+        replace_with_permissionserror(tmp_folder, folderpath + '.commit')
+        self._finish_write(folderpath)
+
+    def _finish_write(self, folderpath: str):
+        """
+        Move the data of a completed _write_folder to the folder.  Does nothing if there isn't any, and picks up where
+        it left off if it was interrupted.
+
+        Parameters
+        ----------
+        folderpath
+            path to the folder that will contain the new data
+        """
+
+        commit_folder = folderpath + '.commit'
+        if os.path.isdir(commit_folder):
+            os.makedirs(folderpath, exist_ok=True)
+            replace_gridded = os.path.join(commit_folder, 'replace_gridded')
+            if os.path.exists(replace_gridded):
+                for fldr in os.listdir(folderpath):
+                    if fldr[:4] == 'cell':
+                        remove_with_permissionserror(os.path.join(folderpath, fldr))
+                os.remove(replace_gridded)
+            for fldr in os.listdir(commit_folder):
+                replace_with_permissionserror(os.path.join(commit_folder, fldr), os.path.join(folderpath, fldr))
+            remove_with_permissionserror(commit_folder)
+
     def _save_bathygrid_metadata(self, folderpath: str):
         """
         Save the metadata assoicated with the bathygrid object to json
@@ -189,8 +240,11 @@ class BaseStorage(OperationalGrid):
             path to folder that contains the tile
         """
 
-        if os.path.exists(tile_folder):
-            remove_with_permissionserror(tile_folder)
+        self._finish_write(tile_folder)
+        if os.path.exists(tile_folder):  # rename first, so that there is never a part of a tile
+            remove_with_permissionserror(tile_folder + '.tmp')
+            replace_with_permissionserror(tile_folder, tile_folder + '.tmp')
+        remove_with_permissionserror(tile_folder + '.tmp')
 
     def _clear_tile_contents(self, tile_folder: str):
         """
@@ -212,9 +266,7 @@ class BaseStorage(OperationalGrid):
         """
 
         if self.output_folder:
-            root_folder = os.path.join(self.output_folder, self.name)
-            os.makedirs(root_folder, exist_ok=True)
-            self._save_bathygrid_metadata(root_folder)
+            self._write_folder(os.path.join(self.output_folder, self.name), self._save_bathygrid_metadata)
 
     def _save_tile(self, tile: Tile, flat_index: int, only_points: bool = False, only_grid: bool = False):
         """
@@ -239,9 +291,23 @@ class BaseStorage(OperationalGrid):
             if tile is None:
                 self._clear_tile(tile_folder)
             else:
-                self._load_tile_data_to_memory(tile, only_points=only_points, only_grid=only_grid)
-                self._save_tile_metadata(tile, tile_folder)
-                self._save_tile_data(tile, tile_folder, only_points=only_points, only_grid=only_grid)
+                gridding = only_grid
+                if tile.unsaved:  # this is a new tile or the last save failed, we need to save everything
+                    only_points, only_grid = False, False
+
+                def write_tile(folderpath):
+                    self._save_tile_metadata(tile, folderpath)
+                    self._save_tile_data(tile, folderpath, only_points=only_points, only_grid=only_grid)
+
+                try:
+                    self._load_tile_data_to_memory(tile, only_points=only_points, only_grid=only_grid)
+                    self._write_folder(tile_folder, write_tile, replace_gridded=not only_points)
+                    tile.unsaved = False
+                except BaseException:
+                    tile.unsaved = True
+                    if gridding:  # otherwise an update would skip this tile
+                        tile.point_count_changed = True
+                    raise
 
     def save(self, folderpath: str = None, progress_bar: bool = True):
         """
@@ -282,6 +348,7 @@ class BaseStorage(OperationalGrid):
 
         if self.output_folder:
             root_folder = os.path.join(self.output_folder, self.name)
+            self._finish_write(root_folder)
             if not os.path.exists(root_folder):
                 raise ValueError('Unable to find grid root folder {}'.format(root_folder))
             self._load_bathygrid_metadata(root_folder)
@@ -304,6 +371,7 @@ class BaseStorage(OperationalGrid):
         if self.output_folder:
             root_folder = os.path.join(self.output_folder, self.name)
             tile_folder, row, col = self._get_tile_folder(root_folder, flat_index)
+            self._finish_write(tile_folder)
             if os.path.exists(tile_folder):
                 if self.tiles.flat[flat_index] is None:
                     if self.sub_type == 'srtile':
@@ -312,8 +380,13 @@ class BaseStorage(OperationalGrid):
                         raise NotImplementedError('Only srtile is currently supported, {} do not exist yet'.format(self.sub_type))
                 else:
                     newtile = self.tiles.flat[flat_index]
-                self._load_tile_metadata(newtile, tile_folder)
-                self._load_tile_data(newtile, tile_folder, only_points=only_points, only_grid=only_grid)
+                loadtile = copy(newtile)  # so that the tile is not changed if we can not load all of it
+                for ky in ['cells', 'cell_edges_x', 'cell_edges_y', 'cell_indices']:
+                    loadtile.__setattr__(ky, dict(newtile.__getattribute__(ky)))
+                self._load_tile_metadata(loadtile, tile_folder)
+                self._load_tile_data(loadtile, tile_folder, only_points=only_points, only_grid=only_grid)
+                loadtile.unsaved = False
+                newtile.__dict__.update(loadtile.__dict__)
                 self.tiles.flat[flat_index] = newtile
             else:
                 self.tiles.flat[flat_index] = None
@@ -343,6 +416,7 @@ class BaseStorage(OperationalGrid):
                     raise NotImplementedError('{} is not a valid storage type'.format(self.storage_type))
                 for idx in range(self.tiles.size):
                     subgrid_folder, row, col = self._get_tile_folder(root_folder, idx)
+                    self._finish_write(subgrid_folder)
                     if os.path.exists(subgrid_folder):
                         newgrid = storage_cls()
                         newgrid.name = os.path.split(subgrid_folder)[1]
diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index 0279837..ea5d64f 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -18,6 +18,7 @@ class Tile(TileGrid):
         super().__init__(min_x, min_y, size)
         self.algorithm = None
         self.grid_parameters = None
+        self.unsaved = True  # True if this tile is not on disk yet or saving it has failed
 
     def clear_grid(self):
         """
@@ -722,6 +723,7 @@ class SRTile(Tile):
                 raise ValueError('Tile given no resolution and an option of {} which is not supported'.format(auto_resolution_mode))
         if not is_power_of_two(resolution):
             raise ValueError(f'Tile: Resolution must be a power of two, got {resolution}')
+        self.point_count_changed = True  # until gridding is complete
         if clear_existing:
             self.clear_grid()
         self._clear_temp_data(resolution)
diff --git a/bathygrid/utilities.py b/bathygrid/utilities.py
index 75c9c4c..f50de23 100644
--- a/bathygrid/utilities.py
+++ b/bathygrid/utilities.py
@@ -409,6 +409,23 @@ def remove_with_permissionserror(folderpath: str, retries: int = 200, waittime:
                     rmtree(folderpath)
 
 
+def replace_with_permissionserror(sourcepath: str, destinationpath: str, retries: int = 200, waittime: float = 0.1):
+    """
+    Move the file or folder at sourcepath to destinationpath, replacing what is there.  See remove_with_permissionserror,
+    we have to wait for handles that are still open here as well.
+    """
+    if os.path.isdir(destinationpath):
+        remove_with_permissionserror(destinationpath, retries, waittime)
+    for attempt in range(1, retries + 1):
+        try:
+            os.replace(sourcepath, destinationpath)
+            return
+        except PermissionError:
+            if attempt == retries:
+                raise
+            time.sleep(waittime)
+
+
 def utc_seconds_to_formatted_string(utctime: int):
     """
     Convert utctime in seconds to a formatted datetime string
-- 
2.43.0


From a0882883e15c65835f27827142d288e94daf6229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 20/51] fix: an interrupted first save could be loaded as a
 grid without points, and a failed save redirected the grid

---
 bathygrid/backends.py | 58 +++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/bathygrid/backends.py b/bathygrid/backends.py
index 25468c2..ddbb697 100644
--- a/bathygrid/backends.py
+++ b/bathygrid/backends.py
@@ -9,7 +9,7 @@ import dask.array as da
 from bathygrid.bgrid import OperationalGrid
 from bathygrid.tile import Tile, SRTile
 from bathygrid.utilities import print_progress_bar, remove_with_permissionserror, replace_with_permissionserror
-from bathygrid.grid_variables import bathygrid_desired_keys, bathygrid_float_to_str, bathygrid_numpy_to_list, \
+from bathygrid.grid_variables import allowable_grid_root_names, bathygrid_desired_keys, bathygrid_float_to_str, bathygrid_numpy_to_list, \
     tile_desired_keys, tile_float_to_str
 
 
@@ -321,24 +321,44 @@ class BaseStorage(OperationalGrid):
             if True, will display a progress bar
         """
         if folderpath:
-            self.output_folder = folderpath
-            self._save_grid()
-            if progress_bar:
-                print_progress_bar(0, self.tiles.size, 'Saving to {}:'.format(os.path.split(folderpath)[1]))
-            if self.sub_type in ['srtile', 'quadtile']:
-                for cnt, tile in enumerate(self.tiles.flat):
-                    if progress_bar:
-                        print_progress_bar(cnt + 1, self.tiles.size, 'Saving to {}:'.format(os.path.split(folderpath)[1]))
-                    self._save_tile(tile, cnt)
-            else:  # this grid has grids underneath it, we need to save those grids via recursion
-                for cnt, subgrid in enumerate(self.tiles.flat):
-                    if progress_bar:
-                        print_progress_bar(cnt + 1, self.tiles.size, 'Saving to {}:'.format(os.path.split(folderpath)[1]))
-                    subgrid_folder, row, col = self._get_tile_folder(self.output_folder, cnt)
-                    if subgrid is None:
-                        self._clear_tile(subgrid_folder)
-                    else:
-                        subgrid.save(os.path.join(self.output_folder, self.name), progress_bar=False)
+            if self.tiles is not None:
+                tiles = self.tiles.ravel()
+            else:  # nothing to save, but there may still be tiles in the folder
+                tiles = np.full(0 if self.tile_x_origin is None else self.tile_x_origin.size, None, dtype=object)
+            previous_folders = [(grid, grid.output_folder) for grid in [self] + tiles.tolist() if isinstance(grid, BaseStorage)]
+            try:
+                self.output_folder = folderpath
+                root_folder = os.path.join(self.output_folder, self.name)
+                self._finish_write(root_folder)
+                # a new grid is not a valid grid until all of it is there, so save the metadata last
+                new_grid = self.name in allowable_grid_root_names and not os.path.exists(os.path.join(root_folder, 'metadata.json'))
+                if not new_grid:
+                    self._save_grid()
+                if progress_bar:
+                    print_progress_bar(0, tiles.size, 'Saving to {}:'.format(os.path.split(folderpath)[1]))
+                if self.sub_type in ['srtile', 'quadtile']:
+                    for cnt, tile in enumerate(tiles):
+                        if progress_bar:
+                            print_progress_bar(cnt + 1, tiles.size, 'Saving to {}:'.format(os.path.split(folderpath)[1]))
+                        self._save_tile(tile, cnt)
+                else:  # this grid has grids underneath it, we need to save those grids via recursion
+                    for cnt, subgrid in enumerate(tiles):
+                        if progress_bar:
+                            print_progress_bar(cnt + 1, tiles.size, 'Saving to {}:'.format(os.path.split(folderpath)[1]))
+                        subgrid_folder, row, col = self._get_tile_folder(root_folder, cnt)
+                        if subgrid is None:
+                            self._clear_tile(subgrid_folder)
+                        else:
+                            subgrid.save(root_folder, progress_bar=False)
+                if new_grid:
+                    self._save_grid()
+            except BaseException:
+                for grid, previous_folder in previous_folders:
+                    grid.output_folder = previous_folder
+                    for tile in (grid.tiles.flat if grid.tiles is not None else []):
+                        if isinstance(tile, Tile):
+                            tile.unsaved = True
+                raise
 
     def _load_grid(self):
         """
-- 
2.43.0


From 7e0f56b1f9035fecdc829bbe037b953abc103fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 21/51] fix: parallel gridding failed when a task had to be
 repeated after a worker was lost

---
 bathygrid/bgrid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 9a26cbe..13b344e 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1470,6 +1470,10 @@ class BathyGrid(BaseGrid):
                         clear_tile = True  # If we get here, it is an update and the tile needs to be updated, so we clear existing grid data
                 if self.sub_type in ['srtile', 'quadtile']:
                     self._load_tile_data_to_memory(tile)
+                else:  # a task that is repeated must not depend on the files that it replaced in the first attempt
+                    for subtile in tile.tiles.flat:
+                        if subtile:
+                            tile._load_tile_data_to_memory(subtile)
                 tile_indices.append(cnt)
                 if algorithm == 'cube':
                     if auto_resolution:
-- 
2.43.0


From 620199fbc87d0ab5e888414bafa70f7efeec038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 22/51] fix: number of tiles was wrong after repeating a
 remove_points that had failed

---
 bathygrid/bgrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 13b344e..d3abd66 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -779,6 +779,7 @@ class BathyGrid(BaseGrid):
                         # just save and reload the points
                         self._save_tile(flat_tiles[cnt], cnt, only_points=True)
                         self._load_tile(cnt, only_points=True)
+                self.number_of_tiles = np.count_nonzero(self.tiles != None)
             if self.is_empty:
                 self.tiles = None
             # the container is listed until all the points are gone, so that remove can be repeated if something fails
-- 
2.43.0


From a644dd72137761521e36f596fe88092bf69243b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 23/51] fix: chunks and exports failed when tiles of the same
 chunk have different resolutions

---
 bathygrid/bgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index d3abd66..cfb5295 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1207,6 +1207,8 @@ class BathyGrid(BaseGrid):
             curmaxdimension = 0
             for trow, tcol in index_list:
                 tile, data, geo, data_col, data_row, tile_cell_count = self.get_tile_data(trow, tcol, resolution, layer, nodatavalue, z_positive_up)
+                if geo is None:  # this tile has no data at this resolution
+                    continue
                 curdata.append(data)
                 curdcol.append(data_col)
                 curdrow.append(data_row)
-- 
2.43.0


From 72a227668c288b4cee87b26ae79faed620aaf69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 24/51] fix: density was zero where only one of the coarser
 resolutions has a value

---
 bathygrid/bgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index cfb5295..6c245f9 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1909,6 +1909,8 @@ class BathyGrid(BaseGrid):
                 no_values_yet = np.isnan(layer_values)
             else:
                 no_values_yet = layer_values == nodatavalue
+            if layer in ['density', 'hypothesis_count']:  # empty cells are zero for these layers
+                no_values_yet = no_values_yet | (layer_values == 0)
             if not no_values_yet.any():  # we have an answer for all xy locations
                 break
             surf_x, surf_y, surfs, new_mins, new_maxs = self.return_surf_xyz(layer, rez, cell_boundaries=True,
-- 
2.43.0


From d3b2e8ce07c304303db3562f964937033e86b990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 25/51] fix: attribution of a container showed the lines of
 another one that has the same name followed by _0

---
 bathygrid/bgrid.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 6c245f9..3adabf7 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2460,13 +2460,13 @@ class OperationalGrid(BathyGrid):
                 'storage_type': self.storage_type}
         ucontainers = self.return_unique_containers()
         for cont_name in ucontainers:
-            try:  # this works for kluster added containers, that have a suffix with an index
-                data['source_{}'.format(cont_name)] = {'time': self.container_timestamp[cont_name + '_0'],
-                                                       'multibeam_lines': self.container[cont_name + '_0']}
+            try:  # this works for all standard container names
+                data['source_{}'.format(cont_name)] = {'time': self.container_timestamp[cont_name],
+                                                       'multibeam_lines': self.container[cont_name]}
             except KeyError:
-                try:  # this works for all other standard container names
-                    data['source_{}'.format(cont_name)] = {'time': self.container_timestamp[cont_name],
-                                                           'multibeam_lines': self.container[cont_name]}
+                try:  # this works for kluster added containers, that have a suffix with an index
+                    data['source_{}'.format(cont_name)] = {'time': self.container_timestamp[cont_name + '_0'],
+                                                           'multibeam_lines': self.container[cont_name + '_0']}
                 except KeyError:
                     nearest_cont_name = [nm for nm in self.container if nm.find(cont_name) != -1]
                     if nearest_cont_name[0]:
-- 
2.43.0


From efde699c40d7d37146091b55295d55ecf4dfabae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 26/51] fix: update gridding after an interrupted gridding left
 out the resolutions of the subgrids that were already done

---
 bathygrid/bgrid.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 3adabf7..6fcc318 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1354,7 +1354,7 @@ class BathyGrid(BaseGrid):
                 if regrid_option == 'update':
                     if not clear_existing:  # this should always be false with update, but check just in case someone wants to fully clear everything
                         # update only those tiles with new points/removed points.  If the point count hasn't changed, we skip
-                        if not tile.point_count_changed:
+                        if not tile.point_count_changed and not self._gridding_interrupted(tile):
                             for rz in tile.resolutions:
                                 if rz not in self.resolutions:
                                     self.resolutions.append(rz)
@@ -1391,6 +1391,27 @@ class BathyGrid(BaseGrid):
         self.resolutions = np.sort(np.unique(self.resolutions)).tolist()
         self._save_grid()
 
+    def _gridding_interrupted(self, tile):
+        """
+        True if this is a subgrid whose tiles were gridded, but not the subgrid itself.  Happens if gridding is interrupted
+        before the metadata of the subgrid is saved.
+
+        Parameters
+        ----------
+        tile
+            tile or subgrid of this grid
+
+        Returns
+        -------
+        bool
+            True if the resolutions of the subgrid are not those of its tiles
+        """
+
+        if not isinstance(tile, BathyGrid):
+            return False
+        tile_resolutions = [rz for subtile in tile.tiles.flat if subtile for rz in subtile.resolutions]
+        return np.unique(tile_resolutions).tolist() != np.unique(tile.resolutions).tolist()
+
     def _grid_parallel_worker(self, data_for_workers: list, progress_bar: bool, tile_indices: list):
         futs = []
         data_for_workers = self.client.scatter(data_for_workers)
@@ -1464,7 +1485,7 @@ class BathyGrid(BaseGrid):
                 if regrid_option == 'update':
                     if not clear_existing:  # this should always be false with update, but check just in case someone wants to fully clear everything
                         # update only those tiles with new points/removed points.  If the point count hasn't changed, we skip
-                        if not tile.point_count_changed:
+                        if not tile.point_count_changed and not self._gridding_interrupted(tile):
                             for rz in tile.resolutions:
                                 if rz not in self.resolutions:
                                     self.resolutions.append(rz)
-- 
2.43.0


From 6bb6aed9808a00215ea3d2b7fd3370a310da7b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:56 +0000
Subject: [PATCH 27/51] fix: zarr chunks that could not be read were silently
 replaced with zeros

---
 bathygrid/backends.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bathygrid/backends.py b/bathygrid/backends.py
index ddbb697..5e0076e 100644
--- a/bathygrid/backends.py
+++ b/bathygrid/backends.py
@@ -5,6 +5,7 @@ from copy import copy
 import numpy as np
 import json
 import dask.array as da
+import zarr
 
 from bathygrid.bgrid import OperationalGrid
 from bathygrid.tile import Tile, SRTile
@@ -659,7 +660,8 @@ class ZarrGrid(BaseStorage):
         if os.path.exists(os.path.join(arr_path, 'zarr_backend_empty')):
             data = da.from_array(np.array([]))
         else:
-            data = da.from_zarr(arr_path)
+            # dask would open the path with a store that replaces a chunk with zeros if there is an error reading it
+            data = da.from_zarr(zarr.open_array(arr_path, mode='r'))
         return data
 
     def _save_tile_data(self, tile: Tile, folderpath: str, only_points: bool = False, only_grid: bool = False):
-- 
2.43.0


From 83671485b69531b7fba11f0f60c849484180a70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:42 +0000
Subject: [PATCH 28/51] fix: write could fail on a handle that is still open
 while replacing the gridded data

---
 bathygrid/backends.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/backends.py b/bathygrid/backends.py
index 5e0076e..5af91f7 100644
--- a/bathygrid/backends.py
+++ b/bathygrid/backends.py
@@ -46,7 +46,7 @@ class BaseStorage(OperationalGrid):
         os.makedirs(tmp_folder)
         write_function(tmp_folder)
         if replace_gridded:
-            open(os.path.join(tmp_folder, 'replace_gridded'), 'w').close()
+            os.makedirs(os.path.join(tmp_folder, 'replace_gridded'))
         replace_with_permissionserror(tmp_folder, folderpath + '.commit')
         self._finish_write(folderpath)
 
@@ -69,7 +69,7 @@ class BaseStorage(OperationalGrid):
                 for fldr in os.listdir(folderpath):
                     if fldr[:4] == 'cell':
                         remove_with_permissionserror(os.path.join(folderpath, fldr))
-                os.remove(replace_gridded)
+                remove_with_permissionserror(replace_gridded)
             for fldr in os.listdir(commit_folder):
                 replace_with_permissionserror(os.path.join(commit_folder, fldr), os.path.join(folderpath, fldr))
             remove_with_permissionserror(commit_folder)
-- 
2.43.0


From 83ce17a9094c1f7081776bf39c8a8372879d9ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:36 +0000
Subject: [PATCH 29/51] fix: layers of a container and slopes failed for points
 added since the tile was gridded

---
 bathygrid/tile.py | 45 +++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index ea5d64f..a4b7d41 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -387,12 +387,9 @@ class SRTile(Tile):
             depth_val = self.data['z']
         if not isinstance(self.data, np.ndarray):
             depth_val = depth_val.compute()
+        cindx = self._return_cell_indices(resolution)
         if only_container:
-            cindx = self.cell_indices[resolution][self.container[only_container][0]:self.container[only_container][1]]
-        else:
-            cindx = self.cell_indices[resolution]
-        if not isinstance(cindx, np.ndarray):
-            cindx = cindx.compute()
+            cindx = cindx[self.container[only_container][0]:self.container[only_container][1]]
         return vert_val, horiz_val, depth_val, vert_grid, horiz_grid, cindx
 
     def _cube_grid_algorithm_initialize(self, data: np.ndarray, resolution: float, only_container: str = None):
@@ -421,12 +418,9 @@ class SRTile(Tile):
         if not isinstance(data, np.ndarray):
             depth_val = depth_val.compute()
 
+        cindx = self._return_cell_indices(resolution)
         if only_container:
-            cindx = self.cell_indices[resolution][self.container[only_container][0]:self.container[only_container][1]]
-        else:
-            cindx = self.cell_indices[resolution]
-        if not isinstance(cindx, np.ndarray):
-            cindx = cindx.compute()
+            cindx = cindx[self.container[only_container][0]:self.container[only_container][1]]
         return vert_val, horiz_val, depth_val, totalunc_grid, hypcnt_grid, hypratio_grid, cindx
 
     def _run_mean_grid(self, resolution: float, only_container: str = None):
@@ -520,10 +514,7 @@ class SRTile(Tile):
             x_val = self.data['x']
             y_val = self.data['y']
             depth_val = self.data['z']
-        if not isinstance(self.cell_indices[resolution], np.ndarray):
-            cindx = self.cell_indices[resolution].compute()
-        else:
-            cindx = self.cell_indices[resolution]
+        cindx = self._return_cell_indices(resolution)
         if not isinstance(self.cell_edges_x[resolution], np.ndarray):
             cedgex = self.cell_edges_x[resolution].compute()
             cedgey = self.cell_edges_y[resolution].compute()
@@ -532,6 +523,32 @@ class SRTile(Tile):
             cedgey = self.cell_edges_y[resolution]
         self.cells[resolution]['x_slope'], self.cells[resolution]['y_slope'] = calculate_slopes(x_val, y_val, depth_val, cindx, cedgex, cedgey, visualize=False)
 
+    def _return_cell_indices(self, resolution: float):
+        """
+        Return the cell index of each point at the given resolution, including the points that were added since the tile
+        was last gridded at this resolution.
+
+        Parameters
+        ----------
+        resolution
+            resolution of the grid in x/y units
+
+        Returns
+        -------
+        np.ndarray
+            1d array of the index of the cell that each point is in
+        """
+
+        cindx = self.cell_indices[resolution]
+        if not isinstance(cindx, np.ndarray):
+            cindx = cindx.compute()
+        new_points = cindx == -1
+        if new_points.any():
+            cindx = np.array(cindx)
+            cindx[new_points] = bin2d_with_indices(np.asarray(self.data['x'][new_points]), np.asarray(self.data['y'][new_points]),
+                                                   np.asarray(self.cell_edges_x[resolution]), np.asarray(self.cell_edges_y[resolution]))
+        return cindx
+
     def _return_cell_counts(self, resolution: float):
         grid_x = np.arange(self.min_x, self.max_x, resolution)
         grid_y = np.arange(self.min_y, self.max_y, resolution)
-- 
2.43.0


From cd5de59e8d16abe86b2a2a13a2286328f5572bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:59 +0000
Subject: [PATCH 30/51] fix: layers could not be queried while a tile with new
 points has not been gridded yet

---
 bathygrid/bgrid.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 6fcc318..3fa1b30 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -104,8 +104,8 @@ class BathyGrid(BaseGrid):
     @property
     def no_grid(self):
         """
-        Simple check to see if this instance contains gridded data or not.  Looks for the first existing Tile and checks
-        if that Tile has a grid.
+        Simple check to see if this instance contains gridded data or not.  Looks for the first existing Tile that has
+        a grid.
 
         Returns
         -------
@@ -119,13 +119,10 @@ class BathyGrid(BaseGrid):
         for tile in self.tiles.flat:
             if tile:
                 if isinstance(tile, BathyGrid):
-                    for subtile in tile.tiles.flat:
-                        if subtile:
-                            tile = subtile
-                if tile.cells:
+                    if not tile.no_grid:
+                        return False
+                elif tile.cells:
                     return False
-                else:
-                    return True
         return True
 
     @property
@@ -881,6 +878,8 @@ class BathyGrid(BaseGrid):
         data_col, data_row = row_number * tile_cell_count, column_number * tile_cell_count
         geo = tile.get_geotransform(resolution)
         data = {}
+        if isinstance(tile, BathyGrid) and tile.no_grid:  # new subgrid that hasn't been gridded yet
+            return tile, data, geo, data_col, data_row, tile_cell_count
         for cnt, lyr in enumerate(layer):
             newdata = tile.get_layers_by_name(lyr, resolution, nodatavalue=nodatavalue, z_positive_up=z_positive_up)
             if newdata is not None:
-- 
2.43.0


From c886c80ea303091ca183bae646505ee114c5dcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:59 +0000
Subject: [PATCH 31/51] fix: repeating an update that had failed to save a
 subgrid left out its resolutions on disk

---
 bathygrid/bgrid.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 3fa1b30..434555c 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1587,10 +1587,14 @@ class BathyGrid(BaseGrid):
         self.grid_parameters = grid_parameters
         self.resolutions = []
 
-        if use_dask:
-            self._grid_parallel(algorithm, resolution, clear_existing, regrid_option, auto_resolution=auto_resolution, progress_bar=progress_bar, border_data=border_data)
-        else:
-            self._grid_regular(algorithm, resolution, clear_existing, regrid_option, auto_resolution=auto_resolution, progress_bar=progress_bar, border_data=border_data)
+        try:
+            if use_dask:
+                self._grid_parallel(algorithm, resolution, clear_existing, regrid_option, auto_resolution=auto_resolution, progress_bar=progress_bar, border_data=border_data)
+            else:
+                self._grid_regular(algorithm, resolution, clear_existing, regrid_option, auto_resolution=auto_resolution, progress_bar=progress_bar, border_data=border_data)
+        except BaseException:
+            self.resolutions = []  # otherwise an update would skip this grid, see _gridding_interrupted
+            raise
         return self.resolutions
 
     def plot(self, layer: str = 'depth', resolution: float = None):
-- 
2.43.0


From 0ecd76d1b52a3b8ce901033f2e0cabb450f458ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:32 +0000
Subject: [PATCH 32/51] fix: exports failed while the first tile has not been
 gridded yet

---
 bathygrid/bgrid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 434555c..7bf8876 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -194,14 +194,15 @@ class BathyGrid(BaseGrid):
     @property
     def layer_names(self):
         """
-        Get the existing layer names in the tiles by checking the first real tile
+        Get the existing layer names in the tiles by checking the first real tile that has been gridded
         """
 
         if self.tiles is not None:
             for tile in self.tiles.flat:
                 if tile:
                     layernames = tile.layer_names
-                    return layernames
+                    if layernames:
+                        return layernames
         return []
 
     @property
-- 
2.43.0


From 659950dfbd5de3ac890c270b374137f04c5a6567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 33/51] fix: values and exports failed after all tiles of a
 resolution were removed with their points

---
 bathygrid/bgrid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 7bf8876..76c3b76 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -778,6 +778,9 @@ class BathyGrid(BaseGrid):
                         self._save_tile(flat_tiles[cnt], cnt, only_points=True)
                         self._load_tile(cnt, only_points=True)
                 self.number_of_tiles = np.count_nonzero(self.tiles != None)
+                # the resolution might only have existed in the tiles that are now removed
+                tile_resolutions = [rz for tile in self.tiles.flat if tile for rz in tile.resolutions]
+                self.resolutions = [rz for rz in self.resolutions if rz in tile_resolutions]
             if self.is_empty:
                 self.tiles = None
             # the container is listed until all the points are gone, so that remove can be repeated if something fails
-- 
2.43.0


From 21f9c03b5d0d007103cfa29ad339232aafc45852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:29 +0000
Subject: [PATCH 34/51] fix: slopes of dense cells were wrong at the
 coordinates of UTM zones

The least squares fit used the eastings and northings as they are, which are so large compared
to the size of a cell that the fit dropped one of the directions as numerically zero.
---
 bathygrid/algorithms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bathygrid/algorithms.py b/bathygrid/algorithms.py
index 30258f7..ac13e8b 100644
--- a/bathygrid/algorithms.py
+++ b/bathygrid/algorithms.py
@@ -267,8 +267,10 @@ def calculate_slopes(x: np.array, y: np.array, z: np.array, cell_indices: np.arr
     y_split = np.split(y[cell_sort], uidx)[1:]
 
     for row, col, x_cell, y_cell, z_cell in zip(urow, ucol, x_split, y_split, z_split):
-        # following equation of plane ax + by + c = z we set up the Ax = B matrices and do the least squares fit
-        a_data = np.column_stack([x_cell, y_cell, np.ones(x_cell.shape[0], dtype=np.float32)])
+        # following equation of plane ax + by + c = z we set up the Ax = B matrices and do the least squares fit.  Coordinates
+        # are relative to the center of the points, eastings/northings are so large that the fit would lose the slope
+        x_center, y_center = x_cell.mean(), y_cell.mean()
+        a_data = np.column_stack([x_cell - x_center, y_cell - y_center, np.ones(x_cell.shape[0], dtype=np.float32)])
         b_data = np.column_stack([z_cell])
         fit, residual, rnk, s = np.linalg.lstsq(a_data, b_data, rcond=None)
 
@@ -277,7 +279,7 @@ def calculate_slopes(x: np.array, y: np.array, z: np.array, cell_indices: np.arr
         # y slope is the change in z in the y direction, which is the b parameter in z = ax + by + c (or the second entry in fit)
         y_slope_grid[row, col] = fit[1][0]
         if visualize:
-            lstsq_grid[row, col] = fit[0] * lstsq_x[row, col] + fit[1] * lstsq_y[row, col] + fit[2]
+            lstsq_grid[row, col] = fit[0] * (lstsq_x[row, col] - x_center) + fit[1] * (lstsq_y[row, col] - y_center) + fit[2]
     if visualize:
         ax.plot_wireframe(lstsq_x.T, lstsq_y.T, lstsq_grid.T, color='k')
         ax.set_xlabel('x')
-- 
2.43.0


From a6f6fa56f5c5eef6fe3394499497751d85c48aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 35/51] fix: asking for slopes added temporary layers to the
 layer names of the grid and to csv exports

---
 bathygrid/bgrid.py          | 9 ++++-----
 bathygrid/grid_variables.py | 2 ++
 bathygrid/grids.py          | 3 ++-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 76c3b76..7ef2eca 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1804,13 +1804,12 @@ class BathyGrid(BaseGrid):
         for tile in self.tiles.flat:
             if tile:
                 if isinstance(tile, Tile):
-                    for resolution in tile.cells:
-                        return list(tile.cells[resolution].keys())
+                    if tile.cells:
+                        return tile.layer_names
                 elif tile.number_of_tiles > 0:  # this is a vr grid, with subgrids within the main grid
                     for subtile in tile.tiles.flat:
-                        if subtile:
-                            for resolution in subtile.cells:
-                                return list(subtile.cells[resolution].keys())
+                        if subtile and subtile.cells:
+                            return subtile.layer_names
         return []
 
     def return_extents(self):
diff --git a/bathygrid/grid_variables.py b/bathygrid/grid_variables.py
index b966543..5d3fadb 100644
--- a/bathygrid/grid_variables.py
+++ b/bathygrid/grid_variables.py
@@ -15,6 +15,8 @@ minimum_points_per_cell = 5
 starting_resolution_density = 16.0
 noise_accomodation_factor = 0.75
 revert_to_lookup_threshold = 0.75
+# layers that are only built on request and not saved to disk, see tile._run_slopes
+temporary_layers = ['x_slope', 'y_slope']
 
 # BACKEND
 # allowable grid root names, we use this to check for grid type on reload and a number of other things
diff --git a/bathygrid/grids.py b/bathygrid/grids.py
index 3f6c953..dbaeedf 100644
--- a/bathygrid/grids.py
+++ b/bathygrid/grids.py
@@ -1,5 +1,6 @@
 import numpy as np
 from bathygrid.utilities import is_power_of_two
+from bathygrid.grid_variables import temporary_layers
 
 
 class Grid:
@@ -269,7 +270,7 @@ class TileGrid(Grid):
         Get the existing layer names in the tile
         """
         for resolution in self.cells:
-            return list(self.cells[resolution].keys())
+            return [lyr for lyr in self.cells[resolution] if lyr not in temporary_layers]
         return []
     
     @property
-- 
2.43.0


From 3f8b0d786aa451d07aeb45ea8cb5b3a685614a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 36/51] fix: lists given to or handed out by a grid were shared
 with the caller

---
 bathygrid/bgrid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 7ef2eca..ecef0de 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -7,6 +7,7 @@ import numpy as np
 from dask.array import Array
 import xarray as xr
 from datetime import datetime
+from copy import deepcopy
 import h5py
 from pyproj import CRS
 from typing import Union
@@ -399,7 +400,7 @@ class BathyGrid(BaseGrid):
                 self.max_time = utc_seconds_to_formatted_string(max_time)
 
         if file_list:
-            self.container[container_name] = file_list
+            self.container[container_name] = deepcopy(file_list)
         else:
             self.container[container_name] = ['Unknown']
         self.container_timestamp[container_name] = datetime.utcnow().strftime('%Y%m%d_%H%M%S')
@@ -1599,7 +1600,7 @@ class BathyGrid(BaseGrid):
         except BaseException:
             self.resolutions = []  # otherwise an update would skip this grid, see _gridding_interrupted
             raise
-        return self.resolutions
+        return list(self.resolutions)
 
     def plot(self, layer: str = 'depth', resolution: float = None):
         """
@@ -2501,4 +2502,4 @@ class OperationalGrid(BathyGrid):
                                                                           'multibeam_lines': self.container[nearest_cont_name[0]]}
                     else:
                         raise ValueError('Unable to find entry for container {}, if you have a suffix with a _ and a number, bathygrid will interpret that as an index starting with 0'.format(cont_name))
-        return data
+        return deepcopy(data)  # the lists of the grid are not to be altered through the returned attribution
-- 
2.43.0


From 45fbbbe52f6a2e34d43e8c434aafd8fe42899dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:28 +0000
Subject: [PATCH 37/51] fix: border points of variable resolution neighbours
 were those of every tile, and failed with empty tiles

---
 bathygrid/bgrid.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index ecef0de..a2c0ac3 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1003,8 +1003,9 @@ class BathyGrid(BaseGrid):
                 data.append(newdata)
             else:  # for variable resolution, tils will be a list of grids, get all tiles in the grid
                 for subtil in tils[0].tiles.flat:
-                    newdata = subtil.data[subtil.data['y'] >= (subtil.max_y - buffer_value)]
-                    data.append(newdata)
+                    if subtil:
+                        newdata = subtil.data[subtil.data['y'] >= (tils[0].max_y - buffer_value)]
+                        data.append(newdata)
         # right
         if tils[1]:
             if isinstance(tils[1], Tile):  # single resolution option
@@ -1012,8 +1013,9 @@ class BathyGrid(BaseGrid):
                 data.append(newdata)
             else:
                 for subtil in tils[1].tiles.flat:
-                    newdata = subtil.data[subtil.data['x'] <= (subtil.min_x + buffer_value)]
-                    data.append(newdata)
+                    if subtil:
+                        newdata = subtil.data[subtil.data['x'] <= (tils[1].min_x + buffer_value)]
+                        data.append(newdata)
         # down
         if tils[2]:
             if isinstance(tils[2], Tile):  # single resolution option
@@ -1021,8 +1023,9 @@ class BathyGrid(BaseGrid):
                 data.append(newdata)
             else:
                 for subtil in tils[2].tiles.flat:
-                    newdata = subtil.data[subtil.data['y'] <= (subtil.min_y + buffer_value)]
-                    data.append(newdata)
+                    if subtil:
+                        newdata = subtil.data[subtil.data['y'] <= (tils[2].min_y + buffer_value)]
+                        data.append(newdata)
         # left
         if tils[3]:
             if isinstance(tils[3], Tile):  # single resolution option
@@ -1030,8 +1033,9 @@ class BathyGrid(BaseGrid):
                 data.append(newdata)
             else:
                 for subtil in tils[3].tiles.flat:
-                    newdata = subtil.data[subtil.data['x'] >= (subtil.max_x - buffer_value)]
-                    data.append(newdata)
+                    if subtil:
+                        newdata = subtil.data[subtil.data['x'] >= (tils[3].max_x - buffer_value)]
+                        data.append(newdata)
         if data:
             data = np.concatenate(data)
             if not isinstance(data, np.ndarray):
-- 
2.43.0


From 7ced1947f4a6889f2ca5803e31f7ed50c6981b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:28 +0000
Subject: [PATCH 38/51] fix: layers of a container could not be queried in a
 grid made with cube

---
 bathygrid/tile.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index a4b7d41..fb69d63 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -404,12 +404,14 @@ class SRTile(Tile):
             totalunc_grid = self.cells[resolution]['total_uncertainty']
             hypcnt_grid = self.cells[resolution]['hypothesis_count']
             hypratio_grid = self.cells[resolution]['hypothesis_ratio']
-        else:
-            totalunc_grid = np.array([])
-            hypcnt_grid = np.array([])
-            hypratio_grid = np.array([])
+        else:  # not saved, we only want the depth of the container
+            totalunc_grid = np.full(self.cells[resolution][self.depth_key].shape, np.float32(np.nan), dtype=np.float32)
+            hypcnt_grid = np.full(self.cells[resolution][self.depth_key].shape, 0, dtype=int)
+            hypratio_grid = np.full(self.cells[resolution][self.depth_key].shape, np.float32(np.nan), dtype=np.float32)
 
         if only_container:
+            vert_val = vert_val[self.container[only_container][0]:self.container[only_container][1]]
+            horiz_val = horiz_val[self.container[only_container][0]:self.container[only_container][1]]
             depth_val = data['z'][self.container[only_container][0]:self.container[only_container][1]]
             self.cells[resolution][only_container] = np.full(self.cells[resolution][self.depth_key].shape, np.float32(np.nan), dtype=np.float32)
             self.cells[resolution][only_container + '_density'] = np.full(self.cells[resolution][self.depth_key].shape, 0, dtype=int)
@@ -469,6 +471,9 @@ class SRTile(Tile):
         else:
             x_val = data['x']
             y_val = data['y']
+        if only_container:
+            x_val = x_val[self.container[only_container][0]:self.container[only_container][1]]
+            y_val = y_val[self.container[only_container][0]:self.container[only_container][1]]
 
         if grid_parameters and 'method' in grid_parameters:
             grid_method = grid_parameters['method']
-- 
2.43.0


From ecb5e28fa4911b789248d836bc1b2f38565de741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:28 +0000
Subject: [PATCH 39/51] fix: grid parameters were shared with the caller, and
 those of the first gridding were used for container layers

---
 bathygrid/bgrid.py | 2 +-
 bathygrid/tile.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index a2c0ac3..51c5307 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1593,7 +1593,7 @@ class BathyGrid(BaseGrid):
         # all of the arguments are checked before we change anything
         self.grid_algorithm = algorithm
         self.grid_resolution = grid_resolution
-        self.grid_parameters = grid_parameters
+        self.grid_parameters = dict(grid_parameters) if grid_parameters else grid_parameters
         self.resolutions = []
 
         try:
diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index fb69d63..688b445 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -752,8 +752,8 @@ class SRTile(Tile):
 
         if resolution not in self.cells or algorithm != self.algorithm:
             self.algorithm = algorithm
-            self.grid_parameters = grid_parameters
             self.new_grid(resolution, algorithm)
+        self.grid_parameters = grid_parameters  # used again when the layer of a container is queried
         if not isinstance(self.cell_edges_x[resolution], np.ndarray):
             self.cell_edges_x[resolution] = self.cell_edges_x[resolution].compute()
             self.cell_edges_y[resolution] = self.cell_edges_y[resolution].compute()
-- 
2.43.0


From 92928ceac64b47f0fb31758285ecc2d346d6176b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:28 +0000
Subject: [PATCH 40/51] fix: chunks of tiles could be larger than the maximum
 chunk dimension

---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 51c5307..bcb8d83 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1119,7 +1119,7 @@ class BathyGrid(BaseGrid):
         if arr.ndim != 2 or len(chunk_shape) != 2:
             raise NotImplementedError('_split_to_approx_shape: assumes two dimensions')
 
-        if chunk_shape >= arr.shape:
+        if chunk_shape[0] >= arr.shape[0] and chunk_shape[1] >= arr.shape[1]:
             valid = arr != None
             if valid.any():
                 return [arr[valid].tolist()]
-- 
2.43.0


From 4bac16e1676bbaa74db369f13028f727ecf6b6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:28 +0000
Subject: [PATCH 41/51] fix: chunks of tiles without a resolution failed,
 maximum dimension of a one tile chunk was zero

---
 bathygrid/bgrid.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index bcb8d83..d0e3932 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1199,6 +1199,11 @@ class BathyGrid(BaseGrid):
             if True, performs numpy fliplr to conform to the GDAL specifications
         """
 
+        if not resolution:
+            if len(self.resolutions) > 1:
+                raise ValueError(
+                    'BathyGrid: you must specify a resolution to return layer data when multiple resolutions are found')
+            resolution = self.resolutions[0]
         if isinstance(layer, str):
             layer = [layer]
         if override_maximum_chunk_dimension:
@@ -1226,9 +1231,9 @@ class BathyGrid(BaseGrid):
                 else:
                     # merge the georeference of the two datasets, everything remains the same except the origin, which is now the global origin
                     curgeo = [min([curgeo[0], geo[0]]), curgeo[1], curgeo[2], max([curgeo[3], geo[3]]), curgeo[4], curgeo[5]]
-                    # here we take the greatest dimension currently
-                    curmaxdimension = max((max(curdcol) - min(curdcol) + tile_cell_count) * resolution,
-                                          (max(curdrow) - min(curdrow) + tile_cell_count) * resolution)
+                # here we take the greatest dimension currently
+                curmaxdimension = max((max(curdcol) - min(curdcol) + tile_cell_count) * resolution,
+                                      (max(curdrow) - min(curdrow) + tile_cell_count) * resolution)
             if all([d == {} for d in curdata]):  # skipping empty chunk, happens with VR where the tile has no data at this resolution
                 continue
             assert all(curcellcount)  # all the cell counts per tile should be the same for the one resolution
-- 
2.43.0


From 14535cd6edecf9dd8555e24bd8ac5339111e6429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:28 +0000
Subject: [PATCH 42/51] fix: layers were not trimmed when given a nodatavalue

---
 bathygrid/bgrid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index d0e3932..ef0a7b2 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1316,7 +1316,10 @@ class BathyGrid(BaseGrid):
         data = self.get_layers_by_name(layer, resolution, nodatavalue=nodatavalue, z_positive_up=z_positive_up)
         dat = data[0]  # just use the first layer, the mins/maxs should be the same for all layers
 
-        notnan = ~np.isnan(dat)
+        if np.isnan(nodatavalue):
+            notnan = ~np.isnan(dat)
+        else:
+            notnan = dat != np.float32(nodatavalue)
         rows = np.any(notnan, axis=1)
         cols = np.any(notnan, axis=0)
         rmin, rmax = np.where(rows)[0][[0, -1]]
-- 
2.43.0


From 1937235ff3eaf2abe994df99013ebf6e2adeb1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:28 +0000
Subject: [PATCH 43/51] fix: y locations could not be given as tuple

---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index ef0a7b2..1ff89b9 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1895,7 +1895,7 @@ class BathyGrid(BaseGrid):
         asarrays = True
         if isinstance(x_loc, (tuple, list)):
             x_loc = np.array(list(x_loc))
-        if isinstance(y_loc, list):
+        if isinstance(y_loc, (tuple, list)):
             y_loc = np.array(list(y_loc))
         if isinstance(x_loc, np.ndarray) and isinstance(y_loc, np.ndarray) and x_loc.shape != y_loc.shape:
             raise ValueError('x and y locations must be the same shape, x_loc:{} y_loc:{}'.format(x_loc, y_loc))
-- 
2.43.0


From ef65db1d0fd8f03e9b20b63e9eeb0fc6ff104def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:28 +0000
Subject: [PATCH 44/51] fix: georeference was rounded to float32

---
 bathygrid/bgrid.py | 2 +-
 bathygrid/grids.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 1ff89b9..c0f6d9a 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -338,7 +338,7 @@ class BathyGrid(BaseGrid):
         [x origin, x pixel size, x rotation, y origin, y rotation, -y pixel size]
         """
 
-        parent_transform = [np.float32(self.min_x), resolution, 0, np.float32(self.max_y), 0, -resolution]
+        parent_transform = [float(self.min_x), resolution, 0, float(self.max_y), 0, -resolution]
 
         return parent_transform
 
diff --git a/bathygrid/grids.py b/bathygrid/grids.py
index dbaeedf..ff24d16 100644
--- a/bathygrid/grids.py
+++ b/bathygrid/grids.py
@@ -310,6 +310,6 @@ class TileGrid(Grid):
         [x origin, x pixel size, x rotation, y origin, y rotation, -y pixel size]
         """
         if resolution in self.cells:
-            return [np.float32(self.min_x), resolution, 0, np.float32(self.max_y), 0, -resolution]
+            return [float(self.min_x), resolution, 0, float(self.max_y), 0, -resolution]
         else:
             return None
-- 
2.43.0


From 5204efa93ac314c4b5514b1f8c489987972e07c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:15 +0000
Subject: [PATCH 45/51] fix: tile boundaries contained boxes outside of the
 grid and were rounded to float32

---
 bathygrid/bgrid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index c0f6d9a..fcd7416 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -908,9 +908,9 @@ class BathyGrid(BaseGrid):
             1d array of y coordinates for the drawn grid in meters
         """
 
-        cellboundaries_x, cellboundaries_y = np.meshgrid(self.tile_edges_x, self.tile_edges_y)
-        total_x = np.zeros((cellboundaries_x.shape[0], cellboundaries_x.shape[1] * 5), dtype=np.float32)
-        total_y = np.zeros((cellboundaries_x.shape[0], cellboundaries_x.shape[1] * 5), dtype=np.float32)
+        cellboundaries_x, cellboundaries_y = np.meshgrid(self.tile_edges_x[:-1], self.tile_edges_y[:-1])
+        total_x = np.zeros((cellboundaries_x.shape[0], cellboundaries_x.shape[1] * 5), dtype=np.float64)
+        total_y = np.zeros((cellboundaries_x.shape[0], cellboundaries_x.shape[1] * 5), dtype=np.float64)
         total_x[:, ::5] = cellboundaries_x
         total_y[:, ::5] = cellboundaries_y
         total_x[:, 1::5] = cellboundaries_x + self.tile_size
-- 
2.43.0


From 2a4056b1ace909df6a0b1799c93c82444471f822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:53 +0000
Subject: [PATCH 46/51] fix: gridding at a resolution larger than the tiles
 made a grid that could not be queried

---
 bathygrid/bgrid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index fcd7416..6819bef 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1587,6 +1587,9 @@ class BathyGrid(BaseGrid):
             resolution = float(resolution)
             if not is_power_of_two(resolution):
                 raise ValueError('BathyGrid: Resolution must be a power of two, got {}'.format(resolution))
+            cell_limit = self.subtile_size if self.sub_type == 'grid' else self.tile_size
+            if resolution > cell_limit:  # cells would overlap those of the next tile
+                raise ValueError('BathyGrid: Resolution {} is larger than the size of the tiles, {}'.format(resolution, cell_limit))
         auto_resolution = ''
         if resolution is None:
             auto_resolution = auto_resolution_mode.lower()
-- 
2.43.0


From 98c5149f237df5c6196f0d198977e85a14a89be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:53 +0000
Subject: [PATCH 47/51] fix: refused creation of a grid left an empty folder

---
 bathygrid/convenience.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/bathygrid/convenience.py b/bathygrid/convenience.py
index aba8525..eb7b9da 100644
--- a/bathygrid/convenience.py
+++ b/bathygrid/convenience.py
@@ -36,12 +36,6 @@ def _validate_load_path(folder_path: str):
 
 
 def _validate_create_options(folder_path: str, grid_type: str, grid_backend: str, tile_size: float, subtile_size: float):
-    if folder_path:
-        fpath, fname = os.path.split(folder_path)
-        folderpath = create_folder(fpath, fname)
-    else:
-        folderpath = ''
-
     if grid_type not in ['single_resolution', 'variable_resolution_tile']:
         raise ValueError("Grid type {} invalid, must be one of ['single_resolution', 'variable_resolution_tile']".format(grid_type))
     if grid_backend not in ['numpy', 'zarr']:
@@ -50,6 +44,13 @@ def _validate_create_options(folder_path: str, grid_type: str, grid_backend: str
         raise ValueError('Tile size {} must be a power of two'.format(tile_size))
     if grid_type == 'variable_resolution_tile' and not is_power_of_two(subtile_size):
         raise ValueError('Sub tile size {} must be a power of two'.format(subtile_size))
+
+    # all of the arguments are checked before we create anything
+    if folder_path:
+        fpath, fname = os.path.split(folder_path)
+        folderpath = create_folder(fpath, fname)
+    else:
+        folderpath = ''
     return folderpath
 
 
-- 
2.43.0


From 9cb507d5c01f98f56b783e7de351748df81a4243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:53 +0000
Subject: [PATCH 48/51] fix: sign of elevations in csv exports depended on the
 mean depth of the last points

---
 bathygrid/bgrid.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 6819bef..08c8566 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2359,8 +2359,7 @@ class OperationalGrid(BathyGrid):
             dfmt = ['%.3f', '%.3f']
             for cnt, lname in enumerate(lyrs):
                 if lname == 'depth' and z_positive_up:
-                    if self.mean_depth > 0:  # currently positive down
-                        lyrdata[cnt] = lyrdata[cnt] * -1
+                    lyrdata[cnt] = lyrdata[cnt] * -1  # layers are positive down here, whatever the vertical reference is
                     lname = 'elevation'
                 dataset += [lyrdata[cnt].ravel()]
                 dnames += [lname]
-- 
2.43.0


From 92aa47649a68ead1bee7fe69ca0e6def1754c761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:53 +0000
Subject: [PATCH 49/51] fix: automatic resolution was refused when the mean
 depth is zero

---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 08c8566..1730030 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -428,7 +428,7 @@ class BathyGrid(BaseGrid):
             resolution to use at the existing mean_depth
         """
 
-        if not self.mean_depth:
+        if self.mean_depth is None:  # a mean depth of 0.0 is valid
             raise ValueError('Bathygrid: Unable to calculate resolution when mean_depth is None')
         dpth_keys = list(depth_resolution_lookup.keys())
         # get next positive value in keys of resolution lookup
-- 
2.43.0


From c1f334a21d31744b2daf7b2b85f4070fad74fe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:08 +0000
Subject: [PATCH 50/51] fix: saving an empty grid with a progress bar failed

---
 bathygrid/backends.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/backends.py b/bathygrid/backends.py
index 5af91f7..2a58312 100644
--- a/bathygrid/backends.py
+++ b/bathygrid/backends.py
@@ -335,7 +335,7 @@ class BaseStorage(OperationalGrid):
                 new_grid = self.name in allowable_grid_root_names and not os.path.exists(os.path.join(root_folder, 'metadata.json'))
                 if not new_grid:
                     self._save_grid()
-                if progress_bar:
+                if progress_bar and tiles.size:
                     print_progress_bar(0, tiles.size, 'Saving to {}:'.format(os.path.split(folderpath)[1]))
                 if self.sub_type in ['srtile', 'quadtile']:
                     for cnt, tile in enumerate(tiles):
-- 
2.43.0


From 6fd1b7b3610736bc2ee87e1c8d5fc1ef1846abae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:24 +0000
Subject: [PATCH 51/51] fix: a grid with an origin that is not exactly
 representable could not grow

---
 bathygrid/grids.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bathygrid/grids.py b/bathygrid/grids.py
index ff24d16..e1c5a89 100644
--- a/bathygrid/grids.py
+++ b/bathygrid/grids.py
@@ -24,8 +24,9 @@ class BaseGrid(Grid):
     """
     def __init__(self, min_x: float = 0, min_y: float = 0, tile_size: float = 1024.0):
         super().__init__()
-        self.origin_x = min_x
-        self.origin_y = min_y
+        # tiles and cells are powers of two in size, so their edges are exact if the origin is a multiple of one as well
+        self.origin_x = np.round(min_x * 1024.0) / 1024.0
+        self.origin_y = np.round(min_y * 1024.0) / 1024.0
 
         self.data = None
         self.container = {}  # dict of container name, list of multibeam files
-- 
2.43.0

