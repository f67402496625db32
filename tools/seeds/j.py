SEEDS = [
 {'id': 'S21a', 'property': 'P21',
  'edits': [('src/meshio/gmsh/_gmsh41.py', '''                " ",
            )
            tag0 += n
''', '''                " ",
            )
            tag0 = n + 1
''')],
  'demo': '''
import meshio, numpy as np, sys
n = 8
m = meshio.Mesh(np.random.rand(n, 3), [("triangle", np.array([[0, 1, 2], [1, 2, 3]])), ("line", np.array([[0, 1]])), ("tetra", np.array([[4, 5, 6, 7], [0, 1, 2, 3]]))],
                point_data={"gmsh:dim_tags": np.tile([2, 1], (n, 1))}, cell_data={"gmsh:geometrical": [np.ones(k, dtype=int) for k in (2, 1, 2)], "gmsh:physical": [np.ones(k, dtype=int) for k in (2, 1, 2)]})
meshio.write("a.msh", m, file_format="gmsh", binary=False)
rows = [x.split() for x in open("a.msh").read().split("$Elements\\n")[1].split("$EndElements")[0].strip().splitlines()][1:]
tags = [int(r[0]) for r in rows[1:3] + rows[4:5] + rows[6:8]]
print(tags)
sys.exit(0 if tags == [1, 2, 3, 4, 5] else 1)
''',
  'needs': 'an ASCII Gmsh 4.1 file with three or more cell blocks',
  'breaks': 'cells of later blocks get numbers that are already taken'},
 {'id': 'S21b', 'property': 'P21',
  'edits': [('src/meshio/mdpa/_mdpa.py', '''        consecutive_index += len(node_idcs)
''', '''        consecutive_index = len(node_idcs)
''')],
  'demo': '''
import meshio, numpy as np, sys, re
c = [("triangle", np.array([[0, 1, 2], [1, 2, 3]])), ("line", np.array([[0, 1]])), ("tetra", np.array([[4, 5, 6, 7], [0, 1, 2, 3]]))]
meshio.write("a.mdpa", meshio.Mesh(np.random.rand(8, 3), c))
ids = []
for b in re.findall(r"Begin (?:Elements|Conditions)[^\\n]*\\n(.*?)End", open("a.mdpa").read(), re.S):
    ids += [int(x.split()[0]) for x in b.strip().splitlines()]
print(ids)
sys.exit(0 if sorted(ids) == [1, 2, 3, 4, 5] else 1)
''',
  'needs': 'an MDPA file with three or more cell blocks',
  'breaks': 'cells of the third block get numbers that are already taken'},
 {'id': 'S21c', 'property': 'P21',
  'edits': [('src/meshio/gmsh/common.py', '''                fh.write(fmt.format(k + 1, *x).encode())''', '''                fh.write(fmt.format(k, *x).encode())''')],
  'demo': '''
import meshio, numpy as np, sys
m = meshio.Mesh(np.random.rand(3, 3), [("triangle", np.array([[0, 1, 2]]))], point_data={"v": np.random.rand(3, 3)})
meshio.write("a.msh", m, file_format="gmsh22", binary=False)
t = open("a.msh").read().split("$NodeData")[1].splitlines()
ids = [int(x.split()[0]) for x in t if len(x.split()) == 4]
print(ids)
sys.exit(0 if ids == [1, 2, 3] else 1)
''',
  'needs': 'vector data in an ASCII Gmsh file',
  'breaks': 'the data records refer to points 0 to n-1 of points numbered 1 to n'},
]
