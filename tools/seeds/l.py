HEAD = '''
import meshio, numpy as np, sys
'''
SEEDS = [
 {'id': 'S23a', 'property': 'P23',
  'edits': [('src/meshio/neuroglancer/_neuroglancer.py', '''        f.write(np.asarray(c.data, "<I").tobytes(order="C"))
''', '''        f.write(np.asarray(c.data, "<I").tobytes(order="A"))
''')],
  'demo': HEAD + '''
t = np.array([[0, 1, 2], [1, 3, 2], [4, 3, 2]])
m = meshio.Mesh(np.arange(15.0).reshape(5, 3), [("triangle", np.asfortranarray(t))])
meshio.write("a.ng", m, file_format="neuroglancer")
ok = (meshio.read("a.ng", file_format="neuroglancer").cells[0].data == t).all()
print(ok)
sys.exit(0 if ok else 1)
''',
  'needs': 'a mesh whose connectivity array is stored column by column in memory',
  'breaks': 'the triangles are written in the order of memory instead of row by row'},
 {'id': 'S23b', 'property': 'P23',
  'edits': [('src/meshio/vtu/_vtu.py', '''                connectivity.append(d.flatten())
''', '''                connectivity.append(d.ravel(order="K"))
''')],
  'demo': HEAD + '''
t = np.array([[0, 1, 2], [1, 3, 2], [4, 3, 2]])
m = meshio.Mesh(np.arange(15.0).reshape(5, 3), [("triangle", np.asfortranarray(t))])
meshio.write("a.vtu", m)
ok = (meshio.read("a.vtu").cells[0].data == t).all()
print(ok)
sys.exit(0 if ok else 1)
''',
  'needs': 'a mesh whose connectivity array is stored column by column in memory',
  'breaks': 'the connectivity is flattened in the order of memory instead of row by row'},
 {'id': 'S02b', 'property': 'P02',
  'edits': [('src/meshio/permas/_permas.py', '''        point_gids[int(gid)] = index
''', '''        point_gids[int(gid)] = int(gid) - 1
''')],
  'demo': HEAD + '''
open("a.post", "w").write("""!PERMAS DataFile Version 18.0
$ENTER COMPONENT NAME=DFLT_COMP
$STRUCTURE
$COOR
30 0.0 0.0 0.0
10 1.0 0.0 0.0
20 0.0 1.0 0.0
!
$ELEMENT TYPE=TRIA3
1 10 20 30
$END STRUCTURE
$EXIT COMPONENT
$FIN
""")
ok = meshio.read("a.post").cells[0].data.tolist() == [[1, 2, 0]]
print(ok)
sys.exit(0 if ok else 1)
''',
  'needs': 'a PERMAS file whose nodes are not numbered 1, 2, 3, ... in order',
  'breaks': 'node numbers are taken as positions'},
 {'id': 'S03b', 'property': 'P03',
  'edits': [('src/meshio/ugrid/_ugrid.py', '''    for key in ["tetra", "pyramid", "wedge", "hexahedron"]:
        nitems''', '''    for key in ["tetra", "wedge", "pyramid", "hexahedron"]:
        nitems''')],
  'demo': HEAD + '''
m = meshio.Mesh(np.random.default_rng(0).random((9, 3)), [("pyramid", [[0, 1, 2, 3, 4]]), ("wedge", [[3, 4, 5, 6, 7, 8], [0, 1, 2, 6, 7, 8]])])
meshio.write("a.b8.ugrid", m)
try:
    r = meshio.read("a.b8.ugrid")
    ok = all((r.cells_dict[t] == m.cells_dict[t]).all() for t in ("pyramid", "wedge"))
except Exception as e:
    ok = False
print(ok)
sys.exit(0 if ok else 1)
''',
  'needs': 'a UGRID file with both pyramids and wedges',
  'breaks': 'the reader takes the sections of pyramids and wedges in the wrong order'},
 {'id': 'S15d', 'property': 'P15',
  'edits': [('src/meshio/su2/_su2.py', '''                else:
                    tags_per_cell_block[tag] += count''', '''                else:
                    tags_per_cell_block[tag] = count''')],
  'demo': HEAD + '''
m = meshio.Mesh(np.random.default_rng(0).random((5, 2)), [("triangle", [[0, 1, 2], [1, 3, 2]]), ("line", [[0, 1], [1, 2]]), ("line", [[2, 3]])],
                cell_data={"su2:tag": [np.array([0, 0]), np.array([7, 7]), np.array([7])]})
meshio.write("a.su2", m)
n = [l.split("=")[1].strip() for l in open("a.su2") if l.startswith("MARKER_ELEMS")]
print(n)
sys.exit(0 if n == ["3"] else 1)
''',
  'needs': 'a boundary tag that occurs in two cell blocks',
  'breaks': 'the stated number of marker elements is that of the last block only'},
]
