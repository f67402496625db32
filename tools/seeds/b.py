SEEDS = [
 dict(id="S03a", property="P03",
      edits=[("src/meshio/xdmf/common.py", '    0x28: "wedge15",\n    0x29: "wedge18",', '    0x28: "wedge18",\n    0x29: "wedge15",')],
      demo='''
import meshio, numpy as np, sys
pts = "\\n".join(" ".join(map(str, p)) for p in np.random.rand(15, 3).tolist())
open("a.xdmf", "w").write(f"""<?xml version="1.0"?><Xdmf Version="3.0"><Domain><Grid Name="Grid">
<Geometry GeometryType="XYZ"><DataItem DataType="Float" Dimensions="15 3" Format="XML" Precision="8">{pts}</DataItem></Geometry>
<Topology TopologyType="Mixed" NumberOfElements="1"><DataItem DataType="Int" Dimensions="16" Format="XML" Precision="8">40 {" ".join(map(str, range(15)))}</DataItem></Topology>
</Grid></Domain></Xdmf>""")
try:
    m = meshio.read("a.xdmf")
    ok = m.cells[0].type == "wedge15" and m.cells[0].data.tolist() == [list(range(15))]
except Exception:
    ok = False
sys.exit(0 if ok else 1)
''', needs="an XDMF file with a mixed topology containing quadratic wedges, written by another program", breaks="two designations are swapped: wedge15 cells are taken for wedge18"),
 dict(id="S04a", property="P04",
      edits=[("src/meshio/_mesh.py", '    "quad49": 2,', '    "quad49": 3,')],
      demo='''
import meshio, numpy as np, sys
sys.exit(0 if meshio.CellBlock("quad49", np.arange(49)[None]).dim == 2 else 1)
''', needs="sixth-order quadrilaterals", breaks="quad49 blocks claim to be three-dimensional"),
 dict(id="S04b", property="P04",
      edits=[("src/meshio/_common.py", '    "tetra165": 165,', '    "tetra165": 156,')],
      demo='''
import meshio, numpy as np, sys
m = meshio.Mesh(np.random.rand(165, 3), [("tetra165", np.arange(165)[None])])
try:
    meshio.write("a.msh", m, file_format="gmsh")
    ok = m.get_cells_type("tetra165").shape == (1, 165)
except Exception:
    ok = False
sys.exit(0 if ok else 1)
''', needs="eighth-order tetrahedra", breaks="correct tetra165 blocks are rejected and wrong ones accepted"),
 dict(id="S12a", property="P12",
      edits=[("src/meshio/_mesh.py", "            if len(data) != len(cells):\n", "            if len(data) < len(cells):\n"),
             ("src/meshio/_mesh.py", "            for k in range(len(data)):\n                data[k] = np.asarray(data[k])", "            for k in range(len(cells)):\n                data[k] = np.asarray(data[k])")],
      demo='''
import meshio, numpy as np, sys
try:
    meshio.Mesh(np.random.rand(4, 3), [("triangle", np.array([[0, 1, 2]]))], cell_data={"a": [np.array([1.0]), np.array([2.0])]})
except ValueError:
    sys.exit(0)
sys.exit(1)
''', needs="cell data with more arrays than there are cell blocks", breaks="surplus arrays are accepted silently"),
 dict(id="S13a", property="P13",
      edits=[("src/meshio/_helpers.py", "    for cell_block in mesh.cells:\n        key = cell_block.type\n", "    for cell_block in {c.type: c for c in mesh.cells}.values():\n        key = cell_block.type\n")],
      demo='''
import meshio, numpy as np, sys
m = meshio.Mesh(np.random.rand(6, 3), [("triangle", np.array([[0, 1, 2, 3]])), ("quad", np.array([[0, 1, 2, 3]])), ("triangle", np.array([[0, 1, 2]]))])
try:
    meshio.write("a.vtk", m)
except meshio.WriteError:
    sys.exit(0)
except Exception:
    pass
sys.exit(1)
''', needs="two blocks of the same type, only the first with the wrong number of columns", breaks="only the last block of each type is checked before writing"),
 dict(id="S14a", property="P14",
      edits=[("src/meshio/_mesh.py", "        sets_dict = {}\n        for key, member_list in self.cell_sets.items():\n            sets_dict[key] = {}\n            offsets = {}\n", "        sets_dict = {}\n        offsets = {}\n        for key, member_list in self.cell_sets.items():\n            sets_dict[key] = {}\n")],
      demo='''
import meshio, numpy as np, sys
m = meshio.Mesh(np.random.rand(9, 3), [("triangle", np.array([[0, 1, 2], [1, 2, 3]])), ("triangle", np.array([[3, 4, 5]]))],
                cell_sets={"a": [np.array([0]), np.array([0])], "b": [np.array([1]), np.array([0])]})
d = m.cell_sets_dict
sys.exit(0 if d["a"]["triangle"].tolist() == [0, 2] and d["b"]["triangle"].tolist() == [1, 2] else 1)
''', needs="at least two cell sets", breaks="the members of every set but the first are shifted by the total number of cells"),
 dict(id="S18a", property="P18",
      edits=[("src/meshio/_helpers.py", "        ext = (suffix + ext).lower()\n", "        ext = suffix + ext.lower()\n")],
      demo='''
import meshio, numpy as np, sys
m = meshio.Mesh(np.random.rand(4, 3), [("triangle", np.array([[0, 1, 2]]))])
try:
    meshio.write("A.VTU", m)
    meshio.read("A.VTU")
except Exception:
    sys.exit(1)
''', needs="a file name with an upper-case extension", breaks="upper-case extensions are no longer recognised"),
 dict(id="S20a", property="P20",
      edits=[("src/meshio/_mesh.py", "                for i, cc in enumerate(c):\n                    if cc is None:\n                        continue\n                    arr[cc] = i\n",
              "                for i, cc in enumerate(cc for cc in c if cc is not None):\n                    arr[cc] = i\n")],
      demo='''
import meshio, numpy as np, sys
m = meshio.Mesh(np.random.rand(9, 3), [("triangle", np.array([[0, 1, 2], [1, 2, 3]])), ("quad", np.array([[3, 4, 5, 6]]))],
                cell_sets={"a": [np.array([0, 1]), None], "b": [None, np.array([0])]})
m.cell_sets_to_data()
sys.exit(0 if [x.tolist() for x in m.cell_data["a-b"]] == [[0, 0], [1]] else 1)
''', needs="cell sets that have no entry for some blocks", breaks="cells of block 1 are labelled with the number of another set"),
]
