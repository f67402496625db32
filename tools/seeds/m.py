HEAD = '''
import meshio, numpy as np, sys
'''
SEEDS = [
 {'id': 'S15e', 'property': 'P15',
  'edits': [('src/meshio/ansys/_ansys.py', '''(12 (0 1 {total_num_cells:x} 0))''', '''(12 (0 1 {total_num_cells} 0))''')],
  'demo': HEAD + '''
import re
p = np.random.default_rng(0).random((20, 3))
m = meshio.Mesh(p, [("triangle", np.array([[i, i + 1, i + 2] for i in range(15)]))])
meshio.ansys.write("a.msh", m, binary=False)
n = re.search(r"\\(12 \\(0 1 (\\w+) 0\\)\\)", open("a.msh").read()).group(1)
print(n)
sys.exit(0 if int(n, 16) == 15 else 1)
''',
  'needs': 'a mesh with ten cells or more',
  'breaks': 'the total number of cells is stated in decimal digits, where every number of the file is hexadecimal'},
 {'id': 'S14b', 'property': 'P14',
  'edits': [('src/meshio/_mesh.py', '''                if sum(map(np.size, members))''', '''                if sum(map(np.sum, members))''')],
  'demo': HEAD + '''
m = meshio.Mesh(np.random.default_rng(0).random((5, 3)), [("triangle", np.array([[0, 1, 2], [1, 2, 3]])), ("line", np.array([[0, 1]]))],
                cell_sets={"a": [np.array([0]), np.array([], dtype=int)], "b": [np.array([1]), np.array([0])]})
d = m.cell_sets_dict
print(d)
ok = list(d["a"].get("triangle", [])) == [0] and list(d["b"].get("line", [])) == [0]
sys.exit(0 if ok else 1)
''',
  'needs': 'a set whose only member among the cells of a type is the first one',
  'breaks': 'the set view leaves out entries whose members add up to zero'},
 {'id': 'S20b', 'property': 'P20',
  'edits': [('src/meshio/_mesh.py', '''        for name, tag in zip(names, tags):
            self.point_sets[name] = np.where(data == tag)[0]''', '''        for tag, name in enumerate(names):
            self.point_sets[name] = np.where(data == tag)[0]''')],
  'demo': HEAD + '''
m = meshio.Mesh(np.random.default_rng(0).random((4, 3)), [("triangle", np.array([[0, 1, 2], [1, 2, 3]]))], point_data={"id": np.array([3, 3, 7, 3])})
m.point_data_to_sets("id")
s = sorted(sorted(map(int, v)) for v in m.point_sets.values())
print(s)
sys.exit(0 if s == [[0, 1, 3], [2]] else 1)
''',
  'needs': 'integer point data with values other than 0, 1, 2, ...',
  'breaks': 'the sets are made of the points whose value is the position of the value, not the value'},
]
