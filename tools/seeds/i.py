SEEDS = [
 {'id': 'S17a', 'property': 'P17',
  'edits': [('src/meshio/_vtk_common.py', '''    def __init__(self):
        self.points = None
        self.field_data = {}
        self.cell_data_raw = {}
''', '''    field_data = {}

    def __init__(self):
        self.points = None
        self.cell_data_raw = {}
''')],
  'demo': '''
import meshio, numpy as np, sys
p = np.random.rand(3, 3)
c = [("triangle", np.array([[0, 1, 2]]))]
T = "# vtk DataFile Version 3.0\\nx\\nASCII\\nDATASET UNSTRUCTURED_GRID\\nPOINTS 3 float\\n0 0 0 1 0 0 0 1 0\\nCELLS 1 4\\n3 0 1 2\\nCELL_TYPES 1\\n5\\nFIELD FieldData 1\\n%s 1 1 float\\n2.0\\n"
for x in "ab":
    with open(x + ".vtk", "w") as f:
        f.write(T % x)
a = list(meshio.read("a.vtk").field_data)
b = list(meshio.read("b.vtk").field_data)
print(a, b)
sys.exit(1 if len(b) > len(a) else 0)
''',
  'needs': 'two VTK files with different field data read one after the other in one process',
  'breaks': 'the second mesh has the field data of the first one as well'},
 {'id': 'S17b', 'property': 'P17',
  'edits': [('src/meshio/_mesh.py', '''        field_data=None,
        point_sets: dict[str, ArrayLike] | None = None,
        cell_sets: dict[str, list[ArrayLike]] | None = None,
        gmsh_periodic=None,
        info=None,
    ):
        self.points = np.asarray(points)''', '''        field_data={},
        point_sets: dict[str, ArrayLike] | None = None,
        cell_sets: dict[str, list[ArrayLike]] | None = None,
        gmsh_periodic=None,
        info=None,
    ):
        self.points = np.asarray(points)''')],
  'demo': '''
import meshio, numpy as np, sys
a = meshio.Mesh(np.random.rand(3, 3), [("triangle", np.array([[0, 1, 2]]))])
b = meshio.Mesh(np.random.rand(3, 3), [("triangle", np.array([[0, 1, 2]]))])
a.field_data["x"] = np.array([1, 2])
sys.exit(1 if b.field_data else 0)
''',
  'needs': 'two meshes without field data, one of which gets some later',
  'breaks': 'all meshes constructed without field data share one dictionary'},
]
