SEEDS = [
 {'id': 'S15a', 'property': 'P15',
  'edits': [('src/meshio/medit/_medit.py', '            pos += num_cells * (num_verts + 1) * itype_size\n            pos += keyword_size + postype_size + itype_size\n', '            pos += num_cells * (num_verts + 1) * itype_size\n            pos += keyword_size + postype_size + keyword_size\n')],
  'demo': '''
import meshio, numpy as np, sys
m = meshio.Mesh(np.random.rand(5, 3), [("triangle", np.array([[0, 1, 2], [1, 2, 3]])), ("tetra", np.array([[0, 1, 2, 3]]))])
m.write("a.meshb")
raw = open("a.meshb", "rb").read()
key = lambda at: np.frombuffer(raw[at:at + 4], "<i4")[0]
nxt = lambda at: int(np.frombuffer(raw[at + 4:at + 12], "<i8")[0])
# follow the keywords the way a reader does that skips what it does not need
at = int(np.frombuffer(raw[12:20], "<i8")[0])
seen = []
while 0 < at < len(raw) and key(at) != 54:
    seen.append(int(key(at)))
    at = nxt(at)
seen.append(int(key(at)) if 0 < at < len(raw) - 3 else -1)
sys.exit(0 if seen == [4, 6, 8, 54] else 1)
''',
  'needs': 'a binary Medit file with 64-bit indices read by a program that jumps from keyword to keyword',
  'breaks': 'the stated position of the keyword after each cell block is 4 bytes short'},
 {'id': 'S15b', 'property': 'P15',
  'edits': [('src/meshio/ansys/_ansys.py', '            first_index = last_index + 1\n', '            first_index = last_index\n')],
  'demo': '''
import meshio, numpy as np, sys, re
m = meshio.Mesh(np.random.rand(5, 3), [("triangle", np.array([[0, 1, 2], [1, 2, 3]])), ("quad", np.array([[0, 1, 2, 3]])), ("triangle", np.array([[0, 1, 2]]))])
m.write("a.msh", file_format="ansys", binary=False)
t = open("a.msh").read()
at = None
for a, b in re.findall(r"\\(12 \\(1 (\\w+) (\\w+) 1", t):
    a, b = int(a, 16), int(b, 16)
    if at is not None and a != at:
        sys.exit(1)
    at = b + 1
sys.exit(0 if at is not None else 2)
''',
  'needs': 'an ANSYS file with more than one cell block',
  'breaks': 'the index ranges of consecutive cell sections overlap'},
 {'id': 'S15c', 'property': 'P15',
  'edits': [('src/meshio/tecplot/_tecplot.py', '        num_cells = sum(len(mesh.cells[ic].data) for ic in cell_blocks)\n', '        num_cells = sum(len(c.data) for c in mesh.cells)\n')],
  'demo': '''
import meshio, numpy as np, sys, re
m = meshio.Mesh(np.random.rand(5, 3), [("tetra", np.array([[0, 1, 2, 3]])), ("triangle", np.array([[0, 1, 2], [1, 2, 3]]))])
m.write("a.dat", file_format="tecplot")
n = int(re.search(r"ELEMENTS = (\\d+)", open("a.dat").read()).group(1))
sys.exit(0 if n == 1 else 1)
''',
  'needs': 'a Tecplot file of a mesh with both volume and surface cells, of which only the volume cells are stored',
  'breaks': 'the zone header counts cells that are not in the file'},
]
