SEEDS = [
 {'id': 'S19a', 'property': 'P19',
  'edits': [('src/meshio/abaqus/_abaqus.py', 'for i in range(0, len(els), nnl)', 'for i in range(0, len(els) - 1, nnl)')],
  'demo': '''
import meshio, numpy as np, sys
cells = np.arange(90).reshape(30, 3)
for n in range(2, 20):
    m = meshio.Mesh(np.random.rand(90, 3), [("triangle", cells)], cell_sets={"a": [np.arange(n)]})
    m.write("a.inp")
    if len(meshio.read("a.inp").cell_sets["a"][0]) != n:
        sys.exit(1)
''',
  'needs': 'a cell set with 9 (17, 25, ...) members in one block',
  'breaks': 'the member on the last line of the set is not written'},
 {'id': 'S19b', 'property': 'P19',
  'edits': [('src/meshio/flac3d/_flac3d.py', '    cell_block_sizes = [len(cb) for cb in zcells]\n', '    cell_block_sizes = [len(cb) for cb in mesh.cells]\n')],
  'demo': '''
import meshio, numpy as np, sys
m = meshio.Mesh(np.random.rand(24, 3), [("triangle", np.arange(15).reshape(5, 3)), ("tetra", np.arange(8).reshape(2, 4)), ("hexahedron", np.arange(24).reshape(3, 8))],
                cell_sets={"a": [np.array([0]), np.array([1]), np.array([2])]})
for binary in (False, True):
    meshio.write("a.f3grid", m, binary=binary)
    r = meshio.read("a.f3grid")
    s = [v for k, v in r.cell_sets.items() if k.startswith("zone:a")][0]
    got = {c.type: list(x) for c, x in zip(r.cells, s)}
    if got != {"triangle": [], "tetra": [1], "hexahedron": [2]}:
        sys.exit(1)
''',
  'needs': 'a FLAC3D mesh in which a face block comes before two zone blocks',
  'breaks': 'zone groups contain other zones than those of the set'},
 {'id': 'S19c', 'property': 'P19',
  'edits': [('src/meshio/exodus/_exodus.py', '            for k, name in enumerate(mesh.point_sets.keys()):\n', '            for k, name in enumerate(sorted(mesh.point_sets.keys())):\n')],
  'demo': '''
import meshio, numpy as np, sys
m = meshio.Mesh(np.random.rand(6, 3), [("triangle", np.arange(6).reshape(2, 3))], point_sets={"top": np.array([1, 2]), "bottom": np.array([4])})
m.write("a.e")
r = meshio.read("a.e")
sys.exit(0 if list(r.point_sets["top"]) == [1, 2] and list(r.point_sets["bottom"]) == [4] else 1)
''',
  'needs': 'two point sets whose names are not in alphabetical order',
  'breaks': 'the sets exchange their names'},
]
