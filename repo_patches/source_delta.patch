From c82fd48b962033fe35f085cabe0f4edeec90b718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:47 +0000
Subject: [PATCH 01/44] fix: permas reader undoes the node reordering the
 writer applies

---
 src/meshio/permas/_permas.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/meshio/permas/_permas.py b/src/meshio/permas/_permas.py
index dda02a3..bcadd9d 100644
--- a/src/meshio/permas/_permas.py
+++ b/src/meshio/permas/_permas.py
@@ -56,6 +56,14 @@ permas_to_meshio_type = {
 }
 meshio_to_permas_type = {v: k for k, v in permas_to_meshio_type.items()}
 
+# PERMAS node i of a cell is meshio node order[i]
+meshio_to_permas_order = {
+    "triangle6": [0, 3, 1, 4, 2, 5],
+    "tetra10": [0, 4, 1, 5, 2, 6, 7, 8, 9, 3],
+    "quad9": [0, 4, 1, 7, 8, 5, 3, 6, 2],
+    "wedge15": [0, 6, 1, 7, 2, 8, 9, 10, 11, 3, 12, 4, 13, 5, 14],
+}
+
 
 def read(filename):
     """Reads a PERMAS dat file."""
@@ -155,7 +163,10 @@ def _read_cells(f, line0, point_gids):
             cells.append(idx)
             idx = []
     f.seek(last_pos)
-    return cell_type, np.array(cells)
+    cells = np.array(cells)
+    if cell_type in meshio_to_permas_order and len(cells) > 0:
+        cells = cells[:, np.argsort(meshio_to_permas_order[cell_type])]
+    return cell_type, cells
 
 
 def get_param_map(word, required_keys=None):
@@ -239,10 +250,6 @@ def write(filename, mesh):
         for k, x in enumerate(points):
             f.write(f"{k + 1} {x[0]} {x[1]} {x[2]}\n")
         eid = 0
-        tria6_order = [0, 3, 1, 4, 2, 5]
-        tet10_order = [0, 4, 1, 5, 2, 6, 7, 8, 9, 3]
-        quad9_order = [0, 4, 1, 7, 8, 5, 3, 6, 2]
-        wedge15_order = [0, 6, 1, 7, 2, 8, 9, 10, 11, 3, 12, 4, 13, 5, 14]
         for cell_block in mesh.cells:
             node_idcs = cell_block.data
             f.write("!\n")
@@ -251,28 +258,28 @@ def write(filename, mesh):
                 for row in node_idcs:
                     eid += 1
                     mylist = row.tolist()
-                    mylist = [mylist[i] for i in tet10_order]
+                    mylist = [mylist[i] for i in meshio_to_permas_order["tetra10"]]
                     nids_strs = (str(nid + 1) for nid in mylist)
                     f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
             elif cell_block.type == "triangle6":
                 for row in node_idcs:
                     eid += 1
                     mylist = row.tolist()
-                    mylist = [mylist[i] for i in tria6_order]
+                    mylist = [mylist[i] for i in meshio_to_permas_order["triangle6"]]
                     nids_strs = (str(nid + 1) for nid in mylist)
                     f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
             elif cell_block.type == "quad9":
                 for row in node_idcs:
                     eid += 1
                     mylist = row.tolist()
-                    mylist = [mylist[i] for i in quad9_order]
+                    mylist = [mylist[i] for i in meshio_to_permas_order["quad9"]]
                     nids_strs = (str(nid + 1) for nid in mylist)
                     f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
             elif cell_block.type == "wedge15":
                 for row in node_idcs:
                     eid += 1
                     mylist = row.tolist()
-                    mylist = [mylist[i] for i in wedge15_order]
+                    mylist = [mylist[i] for i in meshio_to_permas_order["wedge15"]]
                     nids_strs = (str(nid + 1) for nid in mylist)
                     f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
             else:
-- 
2.43.0


From a85ba024f6de6e10e40da0a1052b45b38531c144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:58 +0000
Subject: [PATCH 02/44] fix: give every fixed-size cell type a topological
 dimension

---
 src/meshio/_mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index 741831d..93e3412 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -72,6 +72,10 @@ topological_dimension = {
     "wedge288": 3,
     "wedge405": 3,
     "wedge550": 3,
+    "wedge15": 3,
+    "pyramid13": 3,
+    "hexahedron24": 3,
+    "hexahedron1331": 3,
     "VTK_LAGRANGE_CURVE": 1,
     "VTK_LAGRANGE_TRIANGLE": 2,
     "VTK_LAGRANGE_QUADRILATERAL": 2,
-- 
2.43.0


From cdb12becb750ddf93f6c3d8274ae39c3b4c7cc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:45 +0000
Subject: [PATCH 03/44] fix: avsucd, ply, vtu and (for sets) vtk writers leave
 the caller's mesh unchanged

---
 src/meshio/_mesh.py          | 10 ++++++++++
 src/meshio/avsucd/_avsucd.py |  8 +++++---
 src/meshio/ply/_ply.py       | 14 ++++++++------
 src/meshio/vtk/_vtk_51.py    |  3 +++
 src/meshio/vtu/_vtu.py       |  3 +++
 5 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index 93e3412..e6b42b9 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -238,6 +238,16 @@ class Mesh:
     def copy(self):
         return copy.deepcopy(self)
 
+    def _shallow_copy(self):
+        """Copy of the data containers (not the arrays) for writers which adapt the data
+        to their format without changing the caller's mesh.
+        """
+        out = copy.copy(self)
+        out.point_data = dict(self.point_data)
+        out.cell_data = {key: list(value) for key, value in self.cell_data.items()}
+        out.field_data = dict(self.field_data)
+        return out
+
     def write(self, path_or_buf, file_format: str | None = None, **kwargs):
         # avoid circular import
         from ._helpers import write
diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 5fdbfe6..25880d5 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -150,14 +150,16 @@ def write(filename, mesh):
             "AVS-UCD requires 3D points, but 2D points given. "
             "Appending 0 third component."
         )
-        mesh.points = np.column_stack([mesh.points, np.zeros_like(mesh.points[:, 0])])
+        points = np.column_stack([mesh.points, np.zeros_like(mesh.points[:, 0])])
+    else:
+        points = mesh.points
 
     with open_file(filename, "w") as f:
         # Write meshio version
         f.write(f"# Written by meshio v{version}\n")
 
         # Write first line
-        num_nodes = len(mesh.points)
+        num_nodes = len(points)
         num_cells = sum(len(c.data) for c in mesh.cells)
 
         # Try to find an appropriate materials array
@@ -187,7 +189,7 @@ def write(filename, mesh):
         f.write(f"{num_nodes} {num_cells} {num_node_data_sum} {num_cell_data_sum} 0\n")
 
         # Write nodes
-        _write_nodes(f, mesh.points)
+        _write_nodes(f, points)
 
         # Write cells
         _write_cells(f, mesh.cells, material)
diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 4393cbc..6cddebf 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -442,6 +442,9 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             fh.write(f"property {type_name} {key}\n".encode())
             pd.append(value)
 
+        # copy of the list, the caller's mesh must not be changed
+        cells = list(mesh.cells)
+
         num_cells = 0
         legal_cell_types = ["vertex", "line", "triangle", "quad", "polygon"]
         for cell_block in mesh.cells:
@@ -452,12 +455,11 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             fh.write(f"element face {num_cells:d}\n".encode())
 
             # possibly cast down to int32
-            # TODO don't alter the mesh data
             has_cast = False
-            for k, cell_block in enumerate(mesh.cells):
+            for k, cell_block in enumerate(cells):
                 if cell_block.data.dtype == np.int64:
                     has_cast = True
-                    mesh.cells[k] = CellBlock(
+                    cells[k] = CellBlock(
                         cell_block.type, cell_block.data.astype(np.int32)
                     )
 
@@ -466,7 +468,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
 
             # assert that all cell dtypes are equal
             cell_dtype = None
-            for cell_block in mesh.cells:
+            for cell_block in cells:
                 if cell_dtype is None:
                     cell_dtype = cell_block.data.dtype
                 if cell_block.data.dtype != cell_dtype:
@@ -485,7 +487,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             fh.write(out.tobytes())
 
             # cells
-            for cell_block in mesh.cells:
+            for cell_block in cells:
                 if cell_block.type not in legal_cell_types:
                     warn(
                         f'cell_type "{cell_block.type}" is not supported by PLY format '
@@ -508,7 +510,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             fh.write(out.encode())
 
             # cells
-            for cell_block in mesh.cells:
+            for cell_block in cells:
                 if cell_block.type not in legal_cell_types:
                     warn(
                         f'cell_type "{cell_block.type}" is not supported by PLY format '
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 2eb1db6..e4b2f02 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -511,6 +511,9 @@ def write(filename, mesh, binary=True):
     if not binary:
         warn("VTK ASCII files are only meant for debugging.")
 
+    # the sets are converted to data on a copy, not in the caller's mesh
+    mesh = mesh._shallow_copy()
+
     if mesh.point_sets:
         info(
             "VTK format cannot write point_sets. Converting them to point_data...",
diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index be80904..cb7d79d 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -626,6 +626,9 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
     else:
         points = mesh.points
 
+    # don't change the caller's data
+    mesh = mesh._shallow_copy()
+
     if mesh.point_sets:
         info(
             "VTU format cannot write point_sets. Converting them to point_data...",
-- 
2.43.0


From 4256e9ccac25142a03f8495284c9581383f5bc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:25 +0000
Subject: [PATCH 04/44] fix: flac3d writer leaves the caller's cell sets
 unchanged

---
 src/meshio/flac3d/_flac3d.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index 45ea0d9..7f1e693 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -394,17 +394,21 @@ def split_f_z(mesh):
     cell_block_sizes = [len(cb) for cb in zcells]
     for key, data in zsets.items():
         gid = 0
-        for n, block in zip(cell_block_sizes, data):
-            block += gid
+        blocks = []
+        for n, block in zip(cell_block_sizes, [b for b in data if b is not None]):
+            blocks.append(block + gid)
             gid += n
+        zsets[key] = blocks
 
     # TODO not sure if fcells and zcells share a common global index
     cell_block_sizes = [len(cb) for cb in fcells]
     for key, data in fsets.items():
         gid = 0
-        for n, block in zip(cell_block_sizes, data):
-            block += gid
+        blocks = []
+        for n, block in zip(cell_block_sizes, [b for b in data if b is not None]):
+            blocks.append(block + gid)
             gid += n
+        fsets[key] = blocks
 
     for label, values in zsets.items():
         zsets[label] = np.concatenate(values)
-- 
2.43.0


From 906434bc123a85fb244db4f9810719351295a8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:09 +0000
Subject: [PATCH 05/44] fix: su2, cgns and svg writers warn about cells they
 skip; su2 boundary cells can be written

---
 src/meshio/cgns/_cgns.py |  3 +++
 src/meshio/su2/_su2.py   | 11 +++++++++--
 src/meshio/svg/_svg.py   |  5 +++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/meshio/cgns/_cgns.py b/src/meshio/cgns/_cgns.py
index fde2ae7..d587101 100644
--- a/src/meshio/cgns/_cgns.py
+++ b/src/meshio/cgns/_cgns.py
@@ -6,6 +6,7 @@ TODO link to specification?
 
 import numpy as np
 
+from .._common import warn
 from .._exceptions import ReadError
 from .._helpers import register_format
 from .._mesh import Mesh
@@ -87,6 +88,8 @@ def write(filename, mesh, compression="gzip", compression_opts=4):
                 compression=compression,
                 compression_opts=compression_opts,
             )
+        else:
+            warn(f"CGNS writer only supports tetra cells. Skipping {cell_block.type}.")
     conn = elems.create_group("ElementConnectivity")
     for cell_block in mesh.cells:
         if cell_block.type == "tetra":
diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index b925171..f639ab8 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -262,7 +262,12 @@ def write(filename, mesh):
             if cell_block.type not in meshio_to_su2_type:
                 warn(
                     ".su2 does not support tags elements of type {}.\n"
-                    "Skipping ...".format(type)
+                    "Skipping ...".format(cell_block.type)
+                )
+            elif cell_block.dim not in (dim - 1, dim):
+                warn(
+                    f".su2 does not support {cell_block.type} cells in {dim} "
+                    "dimensions.\nSkipping ..."
                 )
 
         # Write `internal` cells
@@ -338,7 +343,9 @@ def write(filename, mesh):
             f.write(f"MARKER_TAG= {tag}\n".encode())
             f.write(f"MARKER_ELEMS= {count}\n".encode())
 
-            for index, (cell_type, data) in enumerate(mesh.cells):
+            for index, cell_block in enumerate(mesh.cells):
+                cell_type = cell_block.type
+                data = cell_block.data
 
                 if cell_type not in types:
                     continue
diff --git a/src/meshio/svg/_svg.py b/src/meshio/svg/_svg.py
index c361692..2c1ce74 100644
--- a/src/meshio/svg/_svg.py
+++ b/src/meshio/svg/_svg.py
@@ -4,6 +4,7 @@ from xml.etree import ElementTree as ET
 
 import numpy as np
 
+from .._common import warn
 from .._exceptions import WriteError
 from .._helpers import register_format
 
@@ -71,6 +72,10 @@ def write(
 
     for cell_block in mesh.cells:
         if cell_block.type not in ["line", "triangle", "quad"]:
+            warn(
+                "SVG only supports line, triangle, and quad cells. "
+                f"Skipping {cell_block.type}."
+            )
             continue
 
         if cell_block.type == "line":
-- 
2.43.0


From f482ee32e43afd109ab293e5d111d253624b0ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:58 +0000
Subject: [PATCH 06/44] fix: flac3d writer warns when it reduces cells to their
 corner nodes

---
 src/meshio/flac3d/_flac3d.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index 7f1e693..bf75c7d 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -430,6 +430,15 @@ def write(filename, mesh: Mesh, float_fmt: str = ".16e", binary: bool = False):
     if skip:
         warn(f'FLAC3D format only supports 3D cells. Skipping {", ".join(skip)}.')
 
+    reduced = [
+        c.type for c in mesh.cells if meshio_only["zone"].get(c.type, c.type) != c.type
+    ]
+    if reduced:
+        warn(
+            "FLAC3D format only supports linear cells. "
+            f'Writing only the corner nodes of {", ".join(reduced)}.'
+        )
+
     # split into face/zone data
     zcells, fcells, zsets, fsets = split_f_z(mesh)
 
-- 
2.43.0


From cf773c4fb7b6c77feee48fcee2106646ac74217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:53 +0000
Subject: [PATCH 07/44] fix: abaqus C3D4H and exodus TETRA4/TET4 elements are
 tetra cells

---
 src/meshio/abaqus/_abaqus.py | 2 +-
 src/meshio/exodus/_exodus.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 0dd8877..84575e4 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -79,8 +79,8 @@ abaqus_to_meshio_type = {
     "C3D20RH": "hexahedron20",
     # "HEX27": "hexahedron27",
     #
+    "C3D4H": "tetra",
     "C3D4": "tetra",
-    "C3D4H": "tetra4",
     # "TETRA8": "tetra8",
     "C3D10": "tetra10",
     "C3D10H": "tetra10",
diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index 60fce58..004a222 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -53,9 +53,9 @@ exodus_to_meshio_type = {
     "HEX20": "hexahedron20",
     "HEX27": "hexahedron27",
     #
+    "TETRA4": "tetra",
+    "TET4": "tetra",
     "TETRA": "tetra",
-    "TETRA4": "tetra4",
-    "TET4": "tetra4",
     "TETRA8": "tetra8",
     "TETRA10": "tetra10",
     "TETRA14": "tetra14",
-- 
2.43.0


From 05824459235455ca4c39c8132f00d072a821735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:07 +0000
Subject: [PATCH 08/44] fix: xdmf reader handles vertices and higher-order
 cells in mixed topologies; Hex_1000 alias

---
 src/meshio/xdmf/common.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/meshio/xdmf/common.py b/src/meshio/xdmf/common.py
index fb7fcf3..3cb41a5 100644
--- a/src/meshio/xdmf/common.py
+++ b/src/meshio/xdmf/common.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+from .._common import num_nodes_per_cell
 from .._exceptions import ReadError
 from .._mesh import CellBlock
 
@@ -59,7 +60,7 @@ meshio_to_xdmf_type = {
     "hexahedron343": ["Hexahedron_343", "Hex_343"],
     "hexahedron512": ["Hexahedron_512", "Hex_512"],
     "hexahedron729": ["Hexahedron_729", "Hex_729"],
-    "hexahedron1000": ["Hexahedron_1000", "Hex_100"],
+    "hexahedron1000": ["Hexahedron_1000", "Hex_1000"],
     "hexahedron1331": ["Hexahedron_1331", "Hex_1331"],
 }
 xdmf_to_meshio_type = {v: k for k, vals in meshio_to_xdmf_type.items() for v in vals}
@@ -116,15 +117,8 @@ def translate_mixed_cells(data):
     # https://xdmf.org/index.php/XDMF_Model_and_Format#Arbitrary
     # https://gitlab.kitware.com/xdmf/xdmf/blob/master/XdmfTopologyType.hpp#L394
     xdmf_idx_to_num_nodes = {
-        1: 1,  # vertex
-        2: 2,  # line
-        4: 3,  # triangle
-        5: 4,  # quad
-        6: 4,  # tet
-        7: 5,  # pyramid
-        8: 6,  # wedge
-        9: 8,  # hex
-        11: 6,  # triangle6
+        idx: num_nodes_per_cell[meshio_type]
+        for idx, meshio_type in xdmf_idx_to_meshio_type.items()
     }
 
     # collect types and offsets
@@ -135,9 +129,11 @@ def translate_mixed_cells(data):
         xdmf_type = data[r]
         types.append(xdmf_type)
         offsets.append(r)
-        if xdmf_type == 2:  # line
-            if data[r + 1] != 2:  # polyline
-                raise ReadError("XDMF reader: Only supports 2-point lines for now")
+        if xdmf_type in [1, 2]:  # polyvertex, polyline: number of nodes follows
+            if data[r + 1] != xdmf_idx_to_num_nodes[xdmf_type]:
+                raise ReadError(
+                    "XDMF reader: Only supports single vertices and 2-point lines for now"
+                )
             r += 1
         r += 1
         r += xdmf_idx_to_num_nodes[xdmf_type]
@@ -150,7 +146,7 @@ def translate_mixed_cells(data):
     for start, end in zip(b[:-1], b[1:]):
         meshio_type = xdmf_idx_to_meshio_type[types[start]]
         n = xdmf_idx_to_num_nodes[types[start]]
-        point_offsets = offsets[start:end] + (2 if types[start] == 2 else 1)
+        point_offsets = offsets[start:end] + (2 if types[start] in [1, 2] else 1)
         indices = np.array([np.arange(n) + o for o in point_offsets])
         cells.append(CellBlock(meshio_type, data[indices]))
 
-- 
2.43.0


From f66a263eaaeb27620603465a1bb996cd7463f336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:54 +0000
Subject: [PATCH 09/44] fix: file format vtk51 writes VTK 5.1 files

---
 src/meshio/vtk/_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/vtk/_main.py b/src/meshio/vtk/_main.py
index 1e8e717..0dad2d2 100644
--- a/src/meshio/vtk/_main.py
+++ b/src/meshio/vtk/_main.py
@@ -40,7 +40,7 @@ register_format(
     read,
     {
         "vtk42": _vtk_42.write,
-        "vtk51": _vtk_42.write,
+        "vtk51": _vtk_51.write,
         "vtk": _vtk_51.write,
     },
 )
-- 
2.43.0


From e45b6f44a46f85700d861bd080e4687419029927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:53 +0000
Subject: [PATCH 10/44] fix: cell_sets_dict counts the cells of blocks without
 set members

---
 src/meshio/_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index e6b42b9..f426951 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -297,14 +297,14 @@ class Mesh:
             sets_dict[key] = {}
             offsets = {}
             for members, cells in zip(member_list, self.cells):
-                if members is None:
-                    continue
                 if cells.type in offsets:
                     offset = offsets[cells.type]
                     offsets[cells.type] += cells.data.shape[0]
                 else:
                     offset = 0
                     offsets[cells.type] = cells.data.shape[0]
+                if members is None:
+                    continue
                 if cells.type in sets_dict[key]:
                     sets_dict[key][cells.type].append(members + offset)
                 else:
-- 
2.43.0


From bb420e511dc79c45779b100763622cab06639030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:43 +0000
Subject: [PATCH 11/44] fix: point_data_to_sets names the sets after the data
 array

---
 src/meshio/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index f426951..7d4b285 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -424,7 +424,7 @@ class Mesh:
         names = list(dict.fromkeys(names))
         if len(names) != len(tags):
             # alternative names
-            names = [f"set-key-{tag}" for tag in tags]
+            names = [f"set-{key}-{tag}" for tag in tags]
 
         # TODO there's probably a better way besides np.where, something from
         # np.unique or np.sort
-- 
2.43.0


From 97a41f0819c8089b87718842179e82d2304c035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:48 +0000
Subject: [PATCH 12/44] fix: vtk, vtu: name of the point data made from point
 sets

---
 src/meshio/_mesh.py       | 7 +++++--
 src/meshio/vtk/_vtk_51.py | 2 +-
 src/meshio/vtu/_vtu.py    | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index 7d4b285..14ef674 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -356,7 +356,9 @@ class Mesh:
             self.cell_data[data_name] = intfun
             self.cell_sets = {}
 
-    def point_sets_to_data(self, join_char: str = "-") -> None:
+    def point_sets_to_data(
+        self, join_char: str = "-", data_name: str | None = None
+    ) -> None:
         # now for the point sets
         # Go for -1 as the default value. (NaN is not int.)
         default_value = -1
@@ -371,7 +373,8 @@ class Mesh:
                     f"Using default value {default_value}."
                 )
 
-            data_name = join_char.join(self.point_sets.keys())
+            if data_name is None:
+                data_name = join_char.join(self.point_sets.keys())
             self.point_data[data_name] = intfun
             self.point_sets = {}
 
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index e4b2f02..16d77d2 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -521,7 +521,7 @@ def write(filename, mesh, binary=True):
         )
         key, _ = join_strings(list(mesh.point_sets.keys()))
         key, _ = replace_space(key)
-        mesh.point_sets_to_data(key)
+        mesh.point_sets_to_data(data_name=key)
 
     if mesh.cell_sets:
         info(
diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index cb7d79d..d285323 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -636,7 +636,7 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
         )
         key, _ = join_strings(list(mesh.point_sets.keys()))
         key, _ = replace_space(key)
-        mesh.point_sets_to_data(key)
+        mesh.point_sets_to_data(data_name=key)
 
     if mesh.cell_sets:
         info(
-- 
2.43.0


From 9615dc029357e5709812ea4fc659878e97a480c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:51 +0000
Subject: [PATCH 13/44] fix: write ASCII VTU floats with full precision

---
 src/meshio/vtu/_vtu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index d285323..942a133 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -705,7 +705,7 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
 
     def numpy_to_xml_array(parent, name, data):
         vtu_type = numpy_to_vtu_type[data.dtype]
-        fmt = "{:.11e}" if vtu_type.startswith("Float") else "{:d}"
+        fmt = "{:.16e}" if vtu_type.startswith("Float") else "{:d}"
         da = ET.SubElement(parent, "DataArray", type=vtu_type, Name=name)
         if len(data.shape) == 2:
             da.set("NumberOfComponents", f"{data.shape[1]}")
-- 
2.43.0


From e806d163841793c9e1e5d350a2bc792d7df5c79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:51 +0000
Subject: [PATCH 14/44] fix: write AVS-UCD data with full double precision

---
 src/meshio/avsucd/_avsucd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 25880d5..00b17d1 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -239,7 +239,7 @@ def _write_data(f, labels, data_array, num_entities, num_data, num_data_sum):
         f.write(f"{label}, real\n")
 
     data_array = np.column_stack((np.arange(1, num_entities + 1), data_array))
-    np.savetxt(f, data_array, delimiter=" ", fmt=["%d"] + ["%.14e"] * num_data_sum)
+    np.savetxt(f, data_array, delimiter=" ", fmt=["%d"] + ["%.16e"] * num_data_sum)
 
 
 register_format("avsucd", [".avs"], read, {"avsucd": write})
-- 
2.43.0


From 42f9fec837b6d3b954185855a51733b309e4101a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:51 +0000
Subject: [PATCH 15/44] fix: write enough digits for single-precision values in
 XDMF text

---
 src/meshio/xdmf/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/xdmf/common.py b/src/meshio/xdmf/common.py
index 3cb41a5..abf788d 100644
--- a/src/meshio/xdmf/common.py
+++ b/src/meshio/xdmf/common.py
@@ -23,7 +23,7 @@ dtype_to_format_string = {
     "int64": "%d",
     "uint32": "%d",
     "uint64": "%d",
-    "float32": "%.7e",
+    "float32": "%.8e",
     "float64": "%.16e",
 }
 
-- 
2.43.0


From 414cd72d4579e05f6f8732ec280d15c4881a24e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:51 +0000
Subject: [PATCH 16/44] fix: read ASCII UGRID coordinates in double precision

---
 src/meshio/ugrid/_ugrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 6fa57c0..09e5993 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -23,7 +23,7 @@ from .._mesh import CellBlock, Mesh
 # 64-bit versions described here
 # https://www.simcenter.msstate.edu/software/documentation/ug_io/ugc_l_file_formats.html
 file_types = {
-    "ascii": {"type": "ascii", "float_type": "f", "int_type": "i"},
+    "ascii": {"type": "ascii", "float_type": "d", "int_type": "i"},
     "b8l": {"type": "C", "float_type": ">f8", "int_type": ">i8"},
     "b8": {"type": "C", "float_type": ">f8", "int_type": ">i4"},
     "b4": {"type": "C", "float_type": ">f4", "int_type": ">i4"},
-- 
2.43.0


From 821b2d231f174309ced680d48e7400c29ca3ad46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:13 +0000
Subject: [PATCH 17/44] fix: stop reading truncated ANSYS files instead of
 looping forever

---
 src/meshio/ansys/_ansys.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 364616a..6790107 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -20,11 +20,15 @@ def _skip_to(f, char):
     c = None
     while c != char:
         c = f.read(1).decode()
+        if not c:
+            raise ReadError("Premature EOF")
 
 
 def _skip_close(f, num_open_brackets):
     while num_open_brackets > 0:
         char = f.read(1).decode()
+        if not char:
+            raise ReadError("Premature EOF")
         if char == "(":
             num_open_brackets += 1
         elif char == ")":
@@ -62,6 +66,8 @@ def _read_points(f, line, first_point_index_overall, last_point_index):
     last_char = line.strip()[-1]
     while last_char != "(":
         last_char = f.read(1).decode()
+        if not last_char:
+            raise ReadError("Premature EOF")
 
     if out.group(1) == "":
         # ASCII data
@@ -71,6 +77,8 @@ def _read_points(f, line, first_point_index_overall, last_point_index):
             line = ""
             while line.strip() == "":
                 line = f.readline().decode()
+                if not line:
+                    raise ReadError("Premature EOF")
             dat = line.split()
             if len(dat) != dim:
                 raise ReadError()
@@ -230,6 +238,8 @@ def _read_faces(f, line):
                 line = ""
                 while line.strip() == "":
                     line = f.readline().decode()
+                    if not line:
+                        raise ReadError("Premature EOF")
                 dat = line.split()
                 type_index = int(dat[0], 16)
                 if type_index == 0:
-- 
2.43.0


From 4e197ed9e28e20dd78faab4a05370b860b9e8f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:13 +0000
Subject: [PATCH 18/44] fix: stop reading truncated MDPA files instead of
 looping forever

---
 src/meshio/mdpa/_mdpa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/mdpa/_mdpa.py b/src/meshio/mdpa/_mdpa.py
index afa39ec..1a30eb1 100644
--- a/src/meshio/mdpa/_mdpa.py
+++ b/src/meshio/mdpa/_mdpa.py
@@ -109,6 +109,8 @@ def _read_nodes(f, is_ascii, data_size):
     num_nodes = 0
     while True:
         line = f.readline().decode()
+        if not line:
+            raise ReadError("Premature EOF")
         if "End Nodes" in line:
             break
         num_nodes += 1
-- 
2.43.0


From 4f55f6855e835c810049f4ba71f7a01fad982193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:13 +0000
Subject: [PATCH 19/44] fix: stop reading truncated Nastran files instead of
 looping forever

---
 src/meshio/nastran/_nastran.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 0e1313c..b1ea649 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -111,6 +111,10 @@ def read_buffer(f):
 
     while True:
         next_line = f.readline()
+
+        if not next_line:
+            raise ReadError("Premature EOF")
+
         # Blank lines or comments
         if len(next_line) < 4 or next_line.startswith(("$", "//", "#")):
             continue
-- 
2.43.0


From 884445de4d2c36a5f073ac61021b93c717144a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:13 +0000
Subject: [PATCH 20/44] fix: stop reading truncated OFF files instead of
 looping forever

---
 src/meshio/off/_off.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/meshio/off/_off.py b/src/meshio/off/_off.py
index c3b670b..42f5830 100644
--- a/src/meshio/off/_off.py
+++ b/src/meshio/off/_off.py
@@ -31,7 +31,10 @@ def read_buffer(f):
 
     # fast forward to the next significant line
     while True:
-        line = f.readline().strip()
+        line = f.readline()
+        if not line:
+            raise ReadError("Premature EOF")
+        line = line.strip()
         if line and line[0] != "#":
             break
 
-- 
2.43.0


From a53ace950e423e2ec97ba0b20e90319bb3c81d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:13 +0000
Subject: [PATCH 21/44] fix: stop reading truncated PLY files instead of
 looping forever

---
 src/meshio/ply/_ply.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 6cddebf..ad03b5e 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -66,7 +66,10 @@ def read(filename):
 def _next_line(f):
     # fast forward to the next significant line
     while True:
-        line = f.readline().decode().strip()
+        line = f.readline().decode()
+        if not line:
+            raise ReadError("Premature EOF")
+        line = line.strip()
         if line and line[:7] != "comment":
             break
     return line
-- 
2.43.0


From 1fb53908893c0d75d47f6041db9e5f5326873d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:13 +0000
Subject: [PATCH 22/44] fix: stop reading truncated Tecplot files instead of
 looping forever

---
 src/meshio/tecplot/_tecplot.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 4acf2c3..a8aa944 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -361,15 +361,21 @@ def _parse_fezone(zone, variables):
 def _read_zone_data(f, num_data, num_cells, zone_format):
     data, count = [], 0
     while count < num_data:
-        line = readline(f).split()
-        if line:
+        line = f.readline()
+        if not line:
+            raise ReadError("Premature EOF")
+        line = line.split()
+        if line and not line[0].startswith("#"):
             data += [[float(x) for x in line]]
             count += len(line) if zone_format == "FEBLOCK" else 1
 
     cells, count = [], 0
     while count < num_cells:
-        line = readline(f).split()
-        if line:
+        line = f.readline()
+        if not line:
+            raise ReadError("Premature EOF")
+        line = line.split()
+        if line and not line[0].startswith("#"):
             cells += [[[int(x) for x in line]]]
             count += 1
 
-- 
2.43.0


From 3cf5e4915f7a803e30f9f71b49618ddd1153fe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:13 +0000
Subject: [PATCH 23/44] fix: stop reading truncated TetGen files instead of
 looping forever

---
 src/meshio/tetgen/_tetgen.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index c869496..e72405b 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -30,9 +30,12 @@ def read(filename):
 
     # read nodes
     with open(node_filename) as f:
-        line = f.readline().strip()
-        while len(line) == 0 or line[0] == "#":
-            line = f.readline().strip()
+        line = f.readline()
+        while line and (len(line.strip()) == 0 or line.strip()[0] == "#"):
+            line = f.readline()
+        if not line:
+            raise ReadError("Premature EOF")
+        line = line.strip()
 
         num_points, dim, num_attrs, num_bmarkers = (
             int(item) for item in line.split(" ") if item != ""
@@ -63,9 +66,12 @@ def read(filename):
 
     # read elements
     with open(ele_filename.as_posix()) as f:
-        line = f.readline().strip()
-        while len(line) == 0 or line[0] == "#":
-            line = f.readline().strip()
+        line = f.readline()
+        while line and (len(line.strip()) == 0 or line.strip()[0] == "#"):
+            line = f.readline()
+        if not line:
+            raise ReadError("Premature EOF")
+        line = line.strip()
 
         num_tets, num_points_per_tet, num_attrs = (
             int(item) for item in line.strip().split(" ") if item != ""
-- 
2.43.0


From 27c0eb01da992fd92dac6fbb698ff902aaf7f57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:06 +0000
Subject: [PATCH 24/44] fix: read WKT numbers with exponents, without
 exponential backtracking on malformed text

---
 src/meshio/wkt/_wkt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/wkt/_wkt.py b/src/meshio/wkt/_wkt.py
index 588f504..7965cc6 100644
--- a/src/meshio/wkt/_wkt.py
+++ b/src/meshio/wkt/_wkt.py
@@ -10,7 +10,7 @@ from .._files import open_file
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
 
-float_pattern = r"[+-]?(?:\d+\.?\d*|\d*\.?\d+)"
+float_pattern = r"[+-]?(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][+-]?\d+)?"
 float_re = re.compile(float_pattern)
 
 point_pattern = r"{0}\s+{0}\s+{0}(?:\s+{0})?".format(float_pattern)
@@ -21,7 +21,7 @@ triangle_pattern = r"\(\s*\(\s*({})\s*\)\s*\)".format(
 )
 triangle_re = re.compile(triangle_pattern)
 
-tin_pattern = rf"TIN\s*\((?:\s*{triangle_pattern}\s*,?)*\s*\)"
+tin_pattern = rf"TIN\s*\((?:\s*{triangle_pattern}(?:\s*,)?)*\s*\)"
 tin_re = re.compile(tin_pattern)
 
 
-- 
2.43.0


From bbc741c90a1fc4441a4268bb39239602638ea516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:38 +0000
Subject: [PATCH 25/44] fix: read AVS-UCD files with cell data and several cell
 blocks

---
 src/meshio/avsucd/_avsucd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 00b17d1..b168a25 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -69,7 +69,7 @@ def read_buffer(f):
     # Read cell data
     if num_cell_data:
         cdata = _read_data(f, num_cells, cell_ids)
-        sections = np.cumsum([len(c[1]) for c in cells[:-1]])
+        sections = np.cumsum([len(c.data) for c in cells[:-1]])
         for k, v in cdata.items():
             cell_data[k] = np.split(v, sections)
 
-- 
2.43.0


From 8a9106cf3f48b8115bd34af6b4e756eb33aa14b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:32 +0000
Subject: [PATCH 26/44] fix: write doubles in the binary node section of ANSYS
 files

---
 src/meshio/ansys/_ansys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 6790107..ab34be3 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -423,7 +423,8 @@ def write(filename, mesh, binary=True):
             f"({key} (1 {first_node_index:x} {num_points:x} 1 {dim:x})(\n".encode()
         )
         if binary:
-            mesh.points.tofile(fh)
+            # section 3010 holds doubles, whatever the type of the points array
+            np.asarray(mesh.points, dtype=np.float64).tofile(fh)
             fh.write(b"\n)")
             fh.write(b"End of Binary Section 3010)\n")
         else:
-- 
2.43.0


From 9b2c5254d33da9fb06006f6cea264780aca8d03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:32 +0000
Subject: [PATCH 27/44] fix: store XDMF binary data in native byte order

---
 src/meshio/xdmf/main.py        | 3 ++-
 src/meshio/xdmf/time_series.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 4d8c39d..cf24290 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -384,7 +384,8 @@ class XdmfWriter:
             self.data_counter += 1
             # write binary data to file
             with open(bin_filename, "wb") as f:
-                data.tofile(f)
+                # no Endian is declared, so store in native byte order
+                data.astype(data.dtype.newbyteorder("="), copy=False).tofile(f)
             return bin_filename
 
         if self.data_format != "HDF":
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index a3f8503..5922a15 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -328,7 +328,8 @@ class TimeSeriesWriter:
             self.data_counter += 1
             # write binary data to file
             with open(bin_filename, "wb") as f:
-                data.tofile(f)
+                # no Endian is declared, so store in native byte order
+                data.astype(data.dtype.newbyteorder("="), copy=False).tofile(f)
             return bin_filename
 
         if self.data_format != "HDF":
-- 
2.43.0


From ec5d8f0b9995dba0e6bbee8066dd857d1739d5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:41 +0000
Subject: [PATCH 28/44] fix: read VTK 5.1 arrays of type int as 32-bit integers

---
 src/meshio/vtk/_vtk_51.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 16d77d2..b3ba947 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -18,7 +18,7 @@ from .._vtk_common import (
 vtk_to_numpy_dtype_name = {
     "float": "float32",
     "double": "float64",
-    "int": "int",
+    "int": "int32",
     "vtktypeint8": "int8",
     "vtktypeint16": "int16",
     "vtktypeint32": "int32",
-- 
2.43.0


From 5762b87831d59d458413a0e3ed4c8f669813f042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:41 +0000
Subject: [PATCH 29/44] fix: read all PLY number types, uchar as unsigned

---
 src/meshio/ply/_ply.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index ad03b5e..288d08b 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -29,6 +29,7 @@ ply_to_numpy_dtype = {
     "ushort": np.uint16,
     "int": np.int32,
     "int8": np.int8,
+    "int16": np.int16,
     "int32": np.int32,
     "int64": np.int64,
     "uint": np.uint32,
@@ -267,7 +268,10 @@ def _read_binary(
     cell_data_dtypes,
 ):
     ply_to_numpy_dtype_string = {
-        "uchar": "i1",
+        "char": "i1",
+        "uchar": "u1",
+        "short": "i2",
+        "ushort": "u2",
         "uint": "u4",
         "uint8": "u1",
         "uint16": "u2",
@@ -275,10 +279,12 @@ def _read_binary(
         "uint64": "u8",
         "int": "i4",
         "int8": "i1",
+        "int16": "i2",
         "int32": "i4",
         "int64": "i8",
         "float": "f4",
         "float32": "f4",
+        "float64": "f8",
         "double": "f8",
     }
 
-- 
2.43.0


From 40c862235988ea744ed68a85aa9c663871847e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:42 +0000
Subject: [PATCH 30/44] fix: honour the Endian attribute of binary XDMF items

---
 src/meshio/xdmf/main.py        | 9 ++++++---
 src/meshio/xdmf/time_series.py | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index cf24290..6c30702 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -92,9 +92,12 @@ class XdmfReader:
             return data.reshape(dims)
 
         elif fmt == "Binary":
-            return np.fromfile(
-                data_item.text.strip(), dtype=xdmf_to_numpy_type[(data_type, precision)]
-            ).reshape(dims)
+            endian = {"Native": "=", "Little": "<", "Big": ">"}[
+                data_item.get("Endian", "Native")
+            ]
+            dtype = np.dtype(xdmf_to_numpy_type[(data_type, precision)])
+            dtype = dtype.newbyteorder(endian)
+            return np.fromfile(data_item.text.strip(), dtype=dtype).reshape(dims)
 
         if fmt != "HDF":
             raise ReadError(f"Unknown XDMF Format '{fmt}'.")
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index 5922a15..f622a9d 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -199,9 +199,12 @@ class TimeSeriesReader:
                 sep=" ",
             ).reshape(dims)
         elif data_format == "Binary":
-            return np.fromfile(
-                data_item.text.strip(), dtype=xdmf_to_numpy_type[(data_type, precision)]
-            ).reshape(dims)
+            endian = {"Native": "=", "Little": "<", "Big": ">"}[
+                data_item.get("Endian", "Native")
+            ]
+            dtype = np.dtype(xdmf_to_numpy_type[(data_type, precision)])
+            dtype = dtype.newbyteorder(endian)
+            return np.fromfile(data_item.text.strip(), dtype=dtype).reshape(dims)
 
         if data_format != "HDF":
             raise ReadError(f"Unknown XDMF Format '{data_format}'.")
-- 
2.43.0


From 950219aaee6dfd432cfb8bc857ca0d22eba67e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:49 +0000
Subject: [PATCH 31/44] fix: write mixed XDMF time series without modifying the
 caller's cells and cell data

---
 src/meshio/xdmf/time_series.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index f622a9d..2a7adb2 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -314,9 +314,10 @@ class TimeSeriesWriter:
             self.point_data(point_data, grid)
 
         # permit old dict structure, convert it to list of tuples
-        for name, entry in cell_data.items():
-            if isinstance(entry, dict):
-                cell_data[name] = np.array(list(entry.values()))
+        cell_data = {
+            name: np.array(list(entry.values())) if isinstance(entry, dict) else entry
+            for name, entry in cell_data.items()
+        }
         if cell_data:
             self.cell_data(cell_data, grid)
 
@@ -409,19 +410,23 @@ class TimeSeriesWriter:
                 NumberOfElements=str(total_num_cells),
             )
             total_num_cell_items = sum(np.prod(c.data.shape) for c in cell_blocks)
-            dim = total_num_cell_items + total_num_cells
-            # Lines translate to Polylines, and one needs to specify the exact
-            # number of nodes. Hence, prepend 2.
-            for c in cell_blocks:
-                if c.type == "line":
-                    c.data[:] = np.insert(c.data, 0, 2, axis=1)
-                    dim += len(c.data)
-            dim = str(dim)
+            # Vertices and lines translate to Polyvertices and Polylines, and one needs
+            # to specify the exact number of nodes, which coincides with the type index.
+            num_vertices_and_lines = sum(
+                len(c.data) for c in cell_blocks if c.type in {"vertex", "line"}
+            )
+            dim = str(total_num_cell_items + total_num_cells + num_vertices_and_lines)
             cd = np.concatenate(
                 [
                     # prepend column with xdmf type index
-                    np.insert(
-                        c.data, 0, meshio_type_to_xdmf_index[c.type], axis=1
+                    np.hstack(
+                        [
+                            np.full(
+                                (len(c.data), 2 if c.type in {"vertex", "line"} else 1),
+                                meshio_type_to_xdmf_index[c.type],
+                            ),
+                            c.data,
+                        ]
                     ).flatten()
                     for c in cell_blocks
                 ]
-- 
2.43.0


From b2bdd3272b92efa540c78cf7e35685dabaf77bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:46 +0000
Subject: [PATCH 32/44] fix: state the sizes of the records actually written in
 Fortran UGRID files

---
 src/meshio/ugrid/_ugrid.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 09e5993..835191c 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -204,7 +204,7 @@ def _write_buffer(f, file_type, mesh):
     # it has to be before and after each record
     fortran_header = None
     if file_type["type"] == "F":
-        fortran_header = np.array([nitems.nbytes])
+        fortran_header = np.array([nitems.astype(itype).nbytes])
         _write_section(f, file_type, fortran_header, itype)
 
     _write_section(f, file_type, nitems, itype)
@@ -214,9 +214,10 @@ def _write_buffer(f, file_type, mesh):
         _write_section(f, file_type, fortran_header, itype)
 
         # start next record
-        fortran_header = mesh.points.nbytes
-        for cell_block in mesh.cells:
-            fortran_header += cell_block.data.nbytes
+        fortran_header = mesh.points.size * np.dtype(ftype).itemsize
+        for i in ugrid_meshio_id.values():
+            if i >= 0:
+                fortran_header += mesh.cells[i].data.size * np.dtype(itype).itemsize
         # boundary tags
         if ugrid_counts["triangle"] > 0:
             fortran_header += ugrid_counts["triangle"] * np.dtype(itype).itemsize
-- 
2.43.0


From f64e7cae744d2c7d80284afceb2e816d2adb2404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:50 +0000
Subject: [PATCH 33/44] fix: write the labels of each surface block in UGRID
 files

---
 src/meshio/ugrid/_ugrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 835191c..62c79c6 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -254,7 +254,7 @@ def _write_buffer(f, file_type, mesh):
                 f'Picking {labels_key}, skipping {", ".join(other)}.'
             )
         labels = (
-            mesh.cell_data[labels_key]
+            mesh.cell_data[labels_key][ugrid_meshio_id[key]]
             if labels_key
             else np.ones(ugrid_counts[key], dtype=int)
         )
-- 
2.43.0


From 01c48fa53cd456de267a05abc4eea395b82b421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:50 +0000
Subject: [PATCH 34/44] fix: write one element header and the matching cell
 data for all tetrahedra in TetGen files

---
 src/meshio/tetgen/_tetgen.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index e72405b..9b3f429 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -162,13 +162,16 @@ def write(filename, mesh, float_fmt=".16e"):
         fh.write(f"# This file was created by meshio v{__version__}\n")
         if nattr > 0:
             fh.write("# attribute names: {}\n".format(", ".join(attr_keys)))
-        for id, c in enumerate(filter(lambda c: c.type == "tetra", mesh.cells)):
-            data = c.data
-            fh.write(f"{data.shape[0]} {4} {nattr}\n")
-            fmt = " ".join((5 + nattr) * ["{}"]) + "\n"
+        # one header for all tetrahedra; the cells are numbered consecutively
+        blocks = [(i, c.data) for i, c in enumerate(mesh.cells) if c.type == "tetra"]
+        fh.write(f"{sum(len(data) for _, data in blocks)} {4} {nattr}\n")
+        fmt = " ".join((5 + nattr) * ["{}"]) + "\n"
+        cell_id = 0
+        for i, data in blocks:
             for k, tet in enumerate(data):
-                data = list(tet[:4]) + [mesh.cell_data[key][id][k] for key in attr_keys]
-                fh.write(fmt.format(k, *data))
+                row = list(tet[:4]) + [mesh.cell_data[key][i][k] for key in attr_keys]
+                fh.write(fmt.format(cell_id, *row))
+                cell_id += 1
 
 
 register_format("tetgen", [".ele", ".node"], read, {"tetgen": write})
-- 
2.43.0


From 00ecb6ef81d6a2e071546d41a65344aa553ccaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:57 +0000
Subject: [PATCH 35/44] fix: write the cell data of all cells that are written
 to DOLFIN XML files, and only of those

---
 src/meshio/dolfin/_dolfin.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/meshio/dolfin/_dolfin.py b/src/meshio/dolfin/_dolfin.py
index e43dbd5..937157c 100644
--- a/src/meshio/dolfin/_dolfin.py
+++ b/src/meshio/dolfin/_dolfin.py
@@ -229,11 +229,14 @@ def write(filename, mesh):
     _write_mesh(filename, mesh.points, cell_type, mesh.cells)
 
     for name, lst in mesh.cell_data.items():
-        for data in lst:
-            fname = os.path.splitext(filename)[0]
-            cell_data_filename = f"{fname}_{name}.xml"
-            dim = 2 if mesh.points.shape[1] == 2 or all(mesh.points[:, 2] == 0) else 3
-            _write_cell_data(cell_data_filename, dim, np.array(data))
+        # one file for the data of all cells that have been written
+        data = np.concatenate(
+            [np.asarray(d) for c, d in zip(mesh.cells, lst) if c.type == cell_type]
+        )
+        fname = os.path.splitext(filename)[0]
+        cell_data_filename = f"{fname}_{name}.xml"
+        dim = 2 if mesh.points.shape[1] == 2 or all(mesh.points[:, 2] == 0) else 3
+        _write_cell_data(cell_data_filename, dim, data)
 
 
 register_format("dolfin-xml", [".xml"], read, {"dolfin-xml": write})
-- 
2.43.0


From a79e388f7853496e0492c2e09ba242425e8b76ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:20 +0000
Subject: [PATCH 36/44] fix: write CGNS files of meshes with several tetra
 blocks

---
 src/meshio/cgns/_cgns.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/meshio/cgns/_cgns.py b/src/meshio/cgns/_cgns.py
index d587101..c436042 100644
--- a/src/meshio/cgns/_cgns.py
+++ b/src/meshio/cgns/_cgns.py
@@ -80,25 +80,27 @@ def write(filename, mesh, compression="gzip", compression_opts=4):
     # TODO write cells other than tetra
     elems = zone1.create_group("GridElements")
     rnge = elems.create_group("ElementRange")
+    conn = elems.create_group("ElementConnectivity")
+    tetra_blocks = []
     for cell_block in mesh.cells:
         if cell_block.type == "tetra":
-            rnge.create_dataset(
-                " data",
-                data=[1, cell_block.data.shape[0]],
-                compression=compression,
-                compression_opts=compression_opts,
-            )
+            tetra_blocks.append(cell_block.data)
         else:
             warn(f"CGNS writer only supports tetra cells. Skipping {cell_block.type}.")
-    conn = elems.create_group("ElementConnectivity")
-    for cell_block in mesh.cells:
-        if cell_block.type == "tetra":
-            conn.create_dataset(
-                " data",
-                data=cell_block.data.reshape(-1) + 1,
-                compression=compression,
-                compression_opts=compression_opts,
-            )
+    if tetra_blocks:
+        tetra = np.concatenate(tetra_blocks)
+        rnge.create_dataset(
+            " data",
+            data=[1, tetra.shape[0]],
+            compression=compression,
+            compression_opts=compression_opts,
+        )
+        conn.create_dataset(
+            " data",
+            data=tetra.reshape(-1) + 1,
+            compression=compression,
+            compression_opts=compression_opts,
+        )
 
 
 register_format("cgns", [".cgns"], read, {"cgns": write})
-- 
2.43.0


From 1505704e1fe2c33ed8996a69a431933a1739f3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:50 +0000
Subject: [PATCH 37/44] fix: keep all members of Abaqus sets that are defined
 in pieces

A set that spans several cell blocks is written as one ELSET card per block;
on reading, each card replaced the members read before. Sets defined on
ELEMENT cards were assigned to the wrong block if some ELEMENT cards have no
ELSET, and included cells shifted the element ids.
---
 src/meshio/abaqus/_abaqus.py | 58 ++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 84575e4..42f7a14 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -115,8 +115,6 @@ def read_buffer(f):
     cell_ids = []
     point_sets = {}
     cell_sets = {}
-    cell_sets_element = {}  # Handle cell sets defined in ELEMENT
-    cell_sets_element_order = []  # Order of keys is not preserved in Python 3.5
     field_data = {}
     cell_data = {}
     point_data = {}
@@ -144,24 +142,24 @@ def read_buffer(f):
             )
             cells.append(CellBlock(cell_type, cells_data))
             cell_ids.append(ids)
-            if sets:
-                cell_sets_element.update(sets)
-                cell_sets_element_order += list(sets.keys())
+            for name, members in sets.items():
+                _extend_cell_set(cell_sets, name, len(cells) - 1, members)
         elif keyword == "NSET":
             params_map = get_param_map(line, required_keys=["NSET"])
             set_ids, _, line = _read_set(f, params_map)
             name = params_map["NSET"]
-            point_sets[name] = np.array(
+            members = np.array(
                 [point_ids[point_id] for point_id in set_ids], dtype="int32"
             )
+            point_sets[name] = _union(point_sets.get(name, members[:0]), members)
         elif keyword == "ELSET":
             params_map = get_param_map(line, required_keys=["ELSET"])
             set_ids, set_names, line = _read_set(f, params_map)
             name = params_map["ELSET"]
-            cell_sets[name] = []
+            cell_sets.setdefault(name, [])
             if set_ids.size:
-                for cell_ids_ in cell_ids:
-                    cell_sets_ = np.array(
+                for k, cell_ids_ in enumerate(cell_ids):
+                    members = np.array(
                         [
                             cell_ids_[set_id]
                             for set_id in set_ids
@@ -169,15 +167,13 @@ def read_buffer(f):
                         ],
                         dtype="int32",
                     )
-                    cell_sets[name].append(cell_sets_)
+                    _extend_cell_set(cell_sets, name, k, members)
             elif set_names:
                 for set_name in set_names:
-                    if set_name in cell_sets.keys():
-                        cell_sets[name].append(cell_sets[set_name])
-                    elif set_name in cell_sets_element.keys():
-                        cell_sets[name].append(cell_sets_element[set_name])
-                    else:
+                    if set_name not in cell_sets:
                         raise ReadError(f"Unknown cell set '{set_name}'")
+                    for k, members in enumerate(list(cell_sets[set_name])):
+                        _extend_cell_set(cell_sets, name, k, members)
         elif keyword == "INCLUDE":
             # Splitting line to get external input file path (example: *INCLUDE,INPUT=wInclude_bulk.inp)
             ext_input_file = pathlib.Path(line.split("=")[-1].strip())
@@ -200,23 +196,18 @@ def read_buffer(f):
                     point_sets,
                     cell_sets,
                 )
+                # the included cells have no element ids here
+                cell_ids += [{} for _ in out.cells]
 
             line = f.readline()
         else:
             # There are just too many Abaqus keywords to explicitly skip them.
             line = f.readline()
 
-    # Parse cell sets defined in ELEMENT
-    for i, name in enumerate(cell_sets_element_order):
-        # Not sure whether this case would ever happen
-        if name in cell_sets.keys():
-            cell_sets[name][i] = cell_sets_element[name]
-        else:
-            cell_sets[name] = []
-            for ic in range(len(cells)):
-                cell_sets[name].append(
-                    cell_sets_element[name] if i == ic else np.array([], dtype="int32")
-                )
+    # Each set has one array of members per cell block
+    for members in cell_sets.values():
+        while len(members) < len(cells):
+            members.append(np.array([], dtype="int32"))
 
     return Mesh(
         points,
@@ -229,6 +220,21 @@ def read_buffer(f):
     )
 
 
+def _union(members, new):
+    """Add those of the new members which are not in the set yet."""
+    return np.concatenate([members, new[~np.isin(new, members)]])
+
+
+def _extend_cell_set(cell_sets, name, k, members):
+    """Add members of the k-th cell block to a cell set. Sets may be defined in pieces,
+    e.g., by several ELSET cards of the same name.
+    """
+    cell_set = cell_sets.setdefault(name, [])
+    while len(cell_set) <= k:
+        cell_set.append(np.array([], dtype="int32"))
+    cell_set[k] = _union(cell_set[k], members)
+
+
 def _read_nodes(f):
     points = []
     point_ids = {}
-- 
2.43.0


From 0300fbe338ff2c6f6cf5f1a999122ee1bf07fd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:46 +0000
Subject: [PATCH 38/44] fix: read FLAC3D groups relative to their cell block,
 store whole labels

Group members were split by cell block but stayed indices into the list of all
cells; binary files held only len(label) bytes of the UTF-8 encoded label.
---
 src/meshio/flac3d/_flac3d.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index bf75c7d..d66223f 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -235,10 +235,14 @@ def read_buffer(f, binary):
 
     # cell_sets contains the indices into the global cell list. Since this is
     # split up into blocks, we need to split the cell_sets, too.
+    # The members of a set are relative to their block.
     bins = np.cumsum([len(cb[1]) for cb in cell_blocks])
     for key, data in cell_sets.items():
         d = np.digitize(data, bins)
-        cell_sets[key] = [data[d == k] for k in range(len(cell_blocks))]
+        cell_sets[key] = [
+            data[d == k] - (bins[k] - len(cell_blocks[k][1]))
+            for k in range(len(cell_blocks))
+        ]
 
     # assert len(cell_ids) == sum(len(block) for _, block in cell_blocks)
 
@@ -521,11 +525,12 @@ def _write_groups(f, cells, materials, flag, binary) -> None:
     if binary:
         f.write(struct.pack("<I", len(materials)))
         for label, group in materials.items():
-            num_chars, num_zones = len(label), len(group)
+            encoded = label.encode()
+            num_chars, num_zones = len(encoded), len(group)
             fmt = f"<H{num_chars}sH7sI{num_zones}I"
             tmp = [
                 num_chars,
-                label.encode(),
+                encoded,
                 7,
                 b"Default",  # slot
                 num_zones,
-- 
2.43.0


From 5f2762a8c676c41350d57d06f247d0de1060750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:51 +0000
Subject: [PATCH 39/44] fix: write FLAC3D faces

Any mesh with triangles or quads failed with an AssertionError, although faces
are read and split off for writing; face ids continued the zone ids while face
groups count from 1.
---
 src/meshio/flac3d/_flac3d.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index d66223f..f4fdc60 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -404,7 +404,7 @@ def split_f_z(mesh):
             gid += n
         zsets[key] = blocks
 
-    # TODO not sure if fcells and zcells share a common global index
+    # The face indices are independent of the zone indices.
     cell_block_sizes = [len(cb) for cb in fcells]
     for key, data in fsets.items():
         gid = 0
@@ -430,13 +430,12 @@ def split_f_z(mesh):
 
 def write(filename, mesh: Mesh, float_fmt: str = ".16e", binary: bool = False):
     """Write FLAC3D f3grid grid file."""
-    skip = [c.type for c in mesh.cells if c.type not in meshio_only["zone"]]
+    linear = {**meshio_only["zone"], **meshio_only["face"]}
+    skip = [c.type for c in mesh.cells if c.type not in linear]
     if skip:
-        warn(f'FLAC3D format only supports 3D cells. Skipping {", ".join(skip)}.')
+        warn(f'FLAC3D only supports 2D and 3D cells. Skipping {", ".join(skip)}.')
 
-    reduced = [
-        c.type for c in mesh.cells if meshio_only["zone"].get(c.type, c.type) != c.type
-    ]
+    reduced = [c.type for c in mesh.cells if linear.get(c.type, c.type) != c.type]
     if reduced:
         warn(
             "FLAC3D format only supports linear cells. "
@@ -460,10 +459,11 @@ def write(filename, mesh: Mesh, float_fmt: str = ".16e", binary: bool = False):
         # inside the functions.
         gid = np.array(0)
         #
-        cells = _translate_zcells(mesh.points, mesh.cells)
+        cells = _translate_zcells(mesh.points, zcells)
         _write_cells(f, cells, "zone", binary, gid)
         _write_groups(f, mesh.cells, zsets, "zone", binary)
-        #
+        # Faces are numbered independently of the zones
+        gid = np.array(0)
         cells = _translate_fcells(fcells)
         _write_cells(f, cells, "face", binary, gid)
         _write_groups(f, mesh.cells, fsets, "face", binary)
@@ -585,10 +585,9 @@ def _translate_fcells(cells):
     """Reorder meshio cells to FLAC3D faces."""
     faces = []
     for cell_block in cells:
-        ctype, data = cell_block
-        assert ctype in meshio_only["face"]
+        assert cell_block.type in meshio_only["face"]
 
-        key = meshio_only["face"][ctype]
+        key = meshio_only["face"][cell_block.type]
         data = cell_block.data[:, meshio_to_flac3d_order[key]]
         faces.append((key, data))
 
-- 
2.43.0


From 9e7e3970afe258acc07862ef7ea397da660e4e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:37 +0000
Subject: [PATCH 40/44] fix: close the HDF5 files of CGNS, H5M, MED, and XDMF

They stayed open until garbage collection, after failures even longer, so that
the file could not be written again, removed (Windows), or relied on to be
complete. The XDMF time series writer left its HDF5 file open if writing the
XML part failed.
---
 src/meshio/cgns/_cgns.py       | 10 ++++++++--
 src/meshio/h5m/_h5m.py         | 13 +++++++++++--
 src/meshio/med/_med.py         | 10 ++++++++--
 src/meshio/xdmf/main.py        | 15 ++++++++-------
 src/meshio/xdmf/time_series.py |  8 +++++---
 5 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/meshio/cgns/_cgns.py b/src/meshio/cgns/_cgns.py
index c436042..12aa3ce 100644
--- a/src/meshio/cgns/_cgns.py
+++ b/src/meshio/cgns/_cgns.py
@@ -15,8 +15,11 @@ from .._mesh import Mesh
 def read(filename):
     import h5py
 
-    f = h5py.File(filename, "r")
+    with h5py.File(filename, "r") as f:
+        return _read(f)
 
+
+def _read(f):
     if "Base" not in f:
         raise ReadError('Expected "Base" in file. Malformed CGNS?')
 
@@ -44,8 +47,11 @@ def read(filename):
 def write(filename, mesh, compression="gzip", compression_opts=4):
     import h5py
 
-    f = h5py.File(filename, "w")
+    with h5py.File(filename, "w") as f:
+        _write(f, mesh, compression, compression_opts)
+
 
+def _write(f, mesh, compression, compression_opts):
     base = f.create_group("Base")
 
     # TODO something is missing here
diff --git a/src/meshio/h5m/_h5m.py b/src/meshio/h5m/_h5m.py
index 62a790a..80ca53c 100644
--- a/src/meshio/h5m/_h5m.py
+++ b/src/meshio/h5m/_h5m.py
@@ -21,7 +21,11 @@ from .._mesh import CellBlock, Mesh
 def read(filename):
     import h5py
 
-    f = h5py.File(filename, "r")
+    with h5py.File(filename, "r") as f:
+        return _read(f)
+
+
+def _read(f):
     dset = f["tstt"]
 
     points = dset["nodes"]["coordinates"][()]
@@ -116,7 +120,12 @@ def read(filename):
 def write(filename, mesh, add_global_ids=True, compression="gzip", compression_opts=4):
     import h5py
 
-    f = h5py.File(filename, "w")
+    with h5py.File(filename, "w") as f:
+        _write(f, mesh, add_global_ids, compression, compression_opts)
+
+
+def _write(f, mesh, add_global_ids, compression, compression_opts):
+    import h5py
 
     tstt = f.create_group("tstt")
 
diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index 0cdd35c..ee4a45d 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -35,8 +35,11 @@ numpy_void_str = np.bytes_("")
 def read(filename):
     import h5py
 
-    f = h5py.File(filename, "r")
+    with h5py.File(filename, "r") as f:
+        return _read(f)
 
+
+def _read(f):
     # Mesh ensemble
     mesh_ensemble = f["ENS_MAA"]
     meshes = mesh_ensemble.keys()
@@ -217,8 +220,11 @@ def write(filename, mesh):
     # <https://github.com/nschloe/meshio/issues/781#issuecomment-616438066>
     # compression = None
 
-    f = h5py.File(filename, "w")
+    with h5py.File(filename, "w") as f:
+        _write(f, mesh)
+
 
+def _write(f, mesh):
     # Strangely the version must be 3.0.x
     # Any version >= 3.1.0 will NOT work with SALOME 8.3
     info = f.create_group("INFOS_GENERALES")
diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 6c30702..691aaac 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -109,16 +109,13 @@ class XdmfReader:
         dirname = pathlib.Path(self.filename).resolve().parent
         full_hdf5_path = dirname / filename
 
-        f = h5py.File(full_hdf5_path, "r")
-
         # Some files don't contain the leading slash /.
         if h5path[0] == "/":
             h5path = h5path[1:]
 
-        for key in h5path.split("/"):
-            f = f[key]
-        # `[()]` gives a np.ndarray
-        return f[()]
+        with h5py.File(full_hdf5_path, "r") as f:
+            # `[()]` gives a np.ndarray
+            return f[h5path][()]
 
     def read_information(self, c_data):
         field_data = {}
@@ -355,8 +352,12 @@ class XdmfWriter:
 
         if data_format == "HDF":
             self.h5_filename = self.filename.with_suffix(".h5")
-            self.h5_file = h5py.File(self.h5_filename, "w")
+            with h5py.File(self.h5_filename, "w") as self.h5_file:
+                self._write(filename, mesh)
+        else:
+            self._write(filename, mesh)
 
+    def _write(self, filename, mesh):
         xdmf_file = ET.Element("Xdmf", Version="3.0")
 
         domain = ET.SubElement(xdmf_file, "Domain")
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index 2a7adb2..e82197a 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -270,9 +270,11 @@ class TimeSeriesWriter:
         return self
 
     def __exit__(self, *_):
-        write_xml(self.filename, self.xdmf_file)
-        if self.data_format == "HDF":
-            self.h5_file.close()
+        try:
+            write_xml(self.filename, self.xdmf_file)
+        finally:
+            if self.data_format == "HDF":
+                self.h5_file.close()
 
     def write_points_cells(
         self,
-- 
2.43.0


From f1e8f7f462566478c4f0d0af182b01dd529cc1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:22 +0000
Subject: [PATCH 41/44] fix: number Gmsh 4.0 elements from 1, as the element
 data refers to them

---
 src/meshio/gmsh/_gmsh40.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 3d4270e..2ad68d9 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -312,7 +312,7 @@ def _write_elements(fh, cell_blocks: list[CellBlock], binary: bool):
         total_num_cells = sum(len(cell_block) for cell_block in cell_blocks)
         np.array([len(cell_blocks), total_num_cells], dtype=c_ulong).tofile(fh)
 
-        consecutive_index = 0
+        consecutive_index = 1
         for cell_block in cell_blocks:
             node_idcs = _meshio_to_gmsh_order(cell_block.type, cell_block.data)
 
@@ -347,7 +347,7 @@ def _write_elements(fh, cell_blocks: list[CellBlock], binary: bool):
         total_num_cells = sum(len(cell_block) for cell_block in cell_blocks)
         fh.write(f"{len(cell_blocks)} {total_num_cells}\n".encode())
 
-        consecutive_index = 0
+        consecutive_index = 1
         for cell_block in cell_blocks:
             cell_type = cell_block.type
             cell_data = _meshio_to_gmsh_order(cell_block.type, cell_block.data)
-- 
2.43.0


From 02a190ec17068aa52f21b91f82f73ade70130c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:32 +0000
Subject: [PATCH 42/44] fix: read structured data sets of VTK 5.1 files

---
 src/meshio/vtk/_vtk_51.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index b3ba947..dc3b837 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -249,7 +249,9 @@ def _check_mesh(info):
             for i in range(3)
         ]
         info.points = _generate_points(axis)
-        info.connectivity, info.types = _generate_cells(dim=info.dataset["DIMENSIONS"])
+        info.connectivity, info.offsets, info.types = _generate_cells(
+            dim=info.dataset["DIMENSIONS"]
+        )
     elif info.dataset["type"] == "RECTILINEAR_GRID":
         axis = [
             info.dataset["X_COORDINATES"],
@@ -257,9 +259,13 @@ def _check_mesh(info):
             info.dataset["Z_COORDINATES"],
         ]
         info.points = _generate_points(axis)
-        info.connectivity, info.types = _generate_cells(dim=info.dataset["DIMENSIONS"])
+        info.connectivity, info.offsets, info.types = _generate_cells(
+            dim=info.dataset["DIMENSIONS"]
+        )
     elif info.dataset["type"] == "STRUCTURED_GRID":
-        info.connectivity, info.types = _generate_cells(dim=info.dataset["DIMENSIONS"])
+        info.connectivity, info.offsets, info.types = _generate_cells(
+            dim=info.dataset["DIMENSIONS"]
+        )
 
 
 def _generate_cells(dim):
@@ -304,7 +310,10 @@ def _generate_cells(dim):
         cells[:, 8] = cells[:, 7] - 1
         cell_types = np.full(ele_no, 12, dtype=int)
 
-    return cells.reshape(-1), cell_types
+    # The first column only holds the number of nodes; VTK 5.1 has offsets instead.
+    connectivity = cells[:, 1:]
+    offsets = np.arange(1, ele_no + 1) * connectivity.shape[1]
+    return connectivity.reshape(-1), offsets, cell_types
 
 
 def _generate_points(axis):
-- 
2.43.0


From 88e1093889ec46df62f32a288f64adeb63ef0198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:50 +0000
Subject: [PATCH 43/44] fix: keep the coordinates of VTK rectilinear grids
 whose axes have different types

---
 src/meshio/vtk/_vtk_42.py | 2 +-
 src/meshio/vtk/_vtk_51.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index f3cb469..4607b8e 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -341,7 +341,7 @@ def _generate_points(axis):
     z_dim = len(axis[2])
     pnt_no = x_dim * y_dim * z_dim
     x_id, y_id, z_id = np.mgrid[0:x_dim, 0:y_dim, 0:z_dim]
-    points = np.empty((pnt_no, 3), dtype=axis[0].dtype)
+    points = np.empty((pnt_no, 3), dtype=np.result_type(*axis))
     # VTK sorts points and cells in Fortran order
     points[:, 0] = axis[0][x_id.reshape(-1, order="F")]
     points[:, 1] = axis[1][y_id.reshape(-1, order="F")]
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index dc3b837..d68dc18 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -322,7 +322,7 @@ def _generate_points(axis):
     z_dim = len(axis[2])
     pnt_no = x_dim * y_dim * z_dim
     x_id, y_id, z_id = np.mgrid[0:x_dim, 0:y_dim, 0:z_dim]
-    points = np.empty((pnt_no, 3), dtype=axis[0].dtype)
+    points = np.empty((pnt_no, 3), dtype=np.result_type(*axis))
     # VTK sorts points and cells in Fortran order
     points[:, 0] = axis[0][x_id.reshape(-1, order="F")]
     points[:, 1] = axis[1][y_id.reshape(-1, order="F")]
-- 
2.43.0


From 20e2b638c1ffbf8264912afe0ebee7ce20fb0c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:12 +0000
Subject: [PATCH 44/44] fix: tecplot zone type follows the cells that are
 written, not a skipped first block

---
 src/meshio/tecplot/_tecplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index a8aa944..1859e49 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -421,7 +421,7 @@ def write(filename, mesh):
             cell_blocks = [ic for ic, ndim in zip(cell_blocks, num_dims) if ndim == 3]
 
         # Convert 2D cells to quads / 3D cells to hexahedra
-        zone_type = "FEQUADRILATERAL" if num_dims[0] == 2 else "FEBRICK"
+        zone_type = "FEQUADRILATERAL" if max(num_dims) == 2 else "FEBRICK"
         cells = np.concatenate(
             [
                 mesh.cells[ic].data[:, meshio_to_tecplot_order_2[mesh.cells[ic].type]]
-- 
2.43.0

