RT = '''
import meshio, numpy as np, sys
def rt(t, n, fn, **kw):
    P = np.random.default_rng(0).random((n + 3, 3))
    m = meshio.Mesh(P, [(t, np.arange(n)[None] + 1)])
    meshio.write(fn, m, **kw)
    r = meshio.read(fn)
    a = P[m.cells[0].data]
    b = r.points[r.cells[0].data]
    return r.cells[0].type == t and np.allclose(a, b, atol=1e-6)
'''
SEEDS = [
 dict(id="S01a", property="P01",
      edits=[("src/meshio/gmsh/common.py", "0, 1, 2, 3, 4, 5, 6, 9, 7, 12, 14, 13, 8, 10, 11", "0, 1, 2, 3, 4, 5, 6, 9, 7, 12, 13, 14, 8, 10, 11")],
      demo=RT + 'sys.exit(0 if rt("wedge15", 15, "a.msh", file_format="gmsh") and rt("wedge15", 15, "b.msh", file_format="gmsh22") else 1)\n',
      needs="15-node wedges written and read as gmsh", breaks="two mid-edge nodes of wedge15 are swapped on the reading side only"),
 dict(id="S01b", property="P01",
      edits=[("src/meshio/vtk/_vtk_42.py", "            new_order = vtk_to_meshio_order(vtk_cell_type, offsets.dtype)\n            if new_order is None:\n                new_order = np.arange(numnodes[idx], dtype=offsets.dtype)\n\n            cell_idx = start + new_order\n\n            cell = connectivity[cell_idx]\n",
              "            cell = connectivity[start : start + numnodes[idx]]\n")],
      demo='''
import meshio, numpy as np, sys
P = np.random.default_rng(0).random((12, 3))
m = meshio.Mesh(P, [("polygon", np.array([[6, 7, 8, 9, 10]])), ("wedge", np.arange(6)[None])])
meshio.write("a.vtk", m, file_format="vtk42")
r = meshio.read("a.vtk")
w = [c for c in r.cells if c.type == "wedge"][0]
sys.exit(0 if np.array_equal(np.array(w.data), np.arange(6)[None]) else 1)
''', needs="a legacy VTK 4.2 file holding both polygons and wedges", breaks="the per-cell loop used when polygons are present no longer undoes the wedge reordering"),
 dict(id="S02a", property="P02",
      edits=[("src/meshio/exodus/_exodus.py", "                data[:] = values + 1", "                data[:] = np.asarray(values)")],
      demo='''
import meshio, numpy as np, sys, netCDF4
m = meshio.Mesh(np.random.rand(5, 3), [("triangle", np.array([[0, 1, 2], [2, 3, 4]]))], point_sets={"a": np.array([1, 3])})
meshio.write("a.e", m)
with netCDF4.Dataset("a.e") as f:
    ns = [v for k, v in f.variables.items() if k.startswith("node_ns")]
    sys.exit(0 if sorted(np.array(ns[0][:]).ravel().tolist()) == [2, 4] else 1)
''', needs="an exodus file with point sets", breaks="exodus node sets are written zero-based"),
 dict(id="S05a", property="P05",
      edits=[("src/meshio/medit/_medit.py", "        labels = mesh.point_data[labels_key] if labels_key else np.ones(n, dtype=int)\n\n        fmt =",
              "        labels = mesh.point_data[labels_key] if labels_key else np.ones(n, dtype=int)\n        # reference 0 means \"no reference\" in Medit\n        labels[labels == 0] = 1\n\n        fmt =")],
      demo='''
import meshio, numpy as np, sys
lab = np.array([0, 1, 0, 2])
m = meshio.Mesh(np.random.rand(4, 3), [("triangle", np.array([[0, 1, 2]]))], point_data={"medit:ref": lab.copy()})
meshio.write("a.mesh", m)
sys.exit(0 if (m.point_data["medit:ref"] == lab).all() else 1)
''', needs="integer point data containing 0, written as ASCII medit", breaks="the caller's reference array is modified in place"),
 dict(id="S07a", property="P07",
      edits=[("src/meshio/abaqus/_abaqus.py", "            cell_type = cell_block.type\n", "            cell_type = cell_block.type\n            if cell_type not in meshio_to_abaqus_type:\n                # no Abaqus counterpart\n                continue\n")],
      demo='''
import meshio, numpy as np, sys, io, contextlib
m = meshio.Mesh(np.random.rand(12, 3), [("triangle", np.array([[0, 1, 2]])), ("triangle10", np.arange(10)[None])])
err = io.StringIO()
try:
    with contextlib.redirect_stderr(err):
        meshio.write("a.inp", m, file_format="abaqus")
except Exception:
    sys.exit(0)
sys.exit(0 if err.getvalue().strip() else 1)
''', needs="a mesh with a cell type Abaqus has no element for", breaks="such blocks are dropped from the file without error or warning"),
]
