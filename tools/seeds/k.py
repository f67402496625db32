HEAD = '''
import meshio, numpy as np, sys
def vtk(body, dims, kind="RECTILINEAR_GRID"):
    with open("a.vtk", "w") as f:
        f.write("# vtk DataFile Version 4.2\\nx\\nASCII\\nDATASET %s\\nDIMENSIONS %d %d %d\\n" % ((kind,) + dims) + body)
    return meshio.read("a.vtk")
def axes(*a):
    return "".join("%s_COORDINATES %d double\\n%s\\n" % (n, len(x), " ".join(map(str, x))) for n, x in zip("XYZ", a))
'''
SEEDS = [
 {'id': 'S22a', 'property': 'P22',
  'edits': [('src/meshio/vtk/_vtk_42.py', '''    points[:, 1] = axis[1][y_id.reshape(-1, order="F")]
''', '''    points[:, 1] = axis[1][y_id.reshape(-1)]
''')],
  'demo': HEAD + '''
m = vtk(axes([0., 1., 2.], [5., 7.], [0., 3., 4., 9.]), (3, 2, 4))
want = np.array([[x, y, z] for z in [0., 3., 4., 9.] for y in [5., 7.] for x in [0., 1., 2.]])
ok = np.allclose(m.points, want)
print(ok)
sys.exit(0 if ok else 1)
''',
  'needs': 'a three-dimensional structured grid whose first and third axes differ in length',
  'breaks': 'the y coordinates are listed with the last axis fastest while x and z use the order of VTK'},
 {'id': 'S22b', 'property': 'P22',
  'edits': [('src/meshio/vtk/_vtk_42.py', '''        cells[:, 1] += np.arange(0, ele_no, dtype=int) // ele_dim[0]
''', '''        cells[:, 1] += np.arange(0, ele_no, dtype=int) // ele_dim[-1]
''')],
  'demo': HEAD + '''
m = vtk(axes([0., 1., 2.], [5., 6., 7., 8.], [0.]), (3, 4, 1))
q = m.cells_dict["quad"]
want = np.array([[j * 3 + i, j * 3 + i + 1, (j + 1) * 3 + i + 1, (j + 1) * 3 + i] for j in range(3) for i in range(2)])
print(q.tolist())
sys.exit(0 if np.array_equal(q, want) else 1)
''',
  'needs': 'a flat structured grid with a different number of cells along its two axes',
  'breaks': 'the rows of quadrilaterals start at the wrong nodes'},
 {'id': 'S22c', 'property': 'P22',
  'edits': [('src/meshio/vtk/_vtk_42.py', '''        cells[:, 1] += (ele_dim[0] + ele_dim[1] + 1) * (
''', '''        cells[:, 1] += (2 * ele_dim[0] + 1) * (
''')],
  'demo': HEAD + '''
m = vtk("ORIGIN 0 0 0\\nSPACING 1 1 1\\n", (3, 4, 3), "STRUCTURED_POINTS")
h = m.cells_dict["hexahedron"]
vol = (m.points[h[:, 6]] - m.points[h[:, 0]]).prod(axis=1)
print(vol.tolist())
sys.exit(0 if np.allclose(vol, 1) and len(h) == 12 else 1)
''',
  'needs': 'a three-dimensional structured grid with a different number of cells along its first two axes',
  'breaks': 'hexahedra of the second and later layers start at the wrong nodes'},
]
