SEEDS = [
 {'id': 'S06a', 'property': 'P06',
  'edits': [('src/meshio/vtk/_main.py', '''    with open(filename.as_posix(), "rb") as f:
        mesh = read_buffer(f)
    return mesh
''', '''    f = open(filename.as_posix(), "rb")
    mesh = read_buffer(f)
    f.close()
    return mesh
''')],
  'demo': '''
import meshio, os, sys, traceback
with open("a.vtk", "w") as f:
    f.write("# vtk DataFile Version 3.0\\nx\\nASCII\\nDATASET NONSENSE\\n")
try:
    meshio.vtk.read("a.vtk")
except Exception as e:
    left = [p for p in (os.path.realpath("/proc/self/fd/" + x) for x in os.listdir("/proc/self/fd")) if p.endswith("a.vtk")]
    sys.exit(1 if left else 0)
sys.exit(0)
''',
  'needs': 'a VTK file on which the reader raises',
  'breaks': 'the file stays open after the failure'},
 {'id': 'S06b', 'property': 'P06',
  'edits': [('src/meshio/obj/_obj.py', '''    with open_file(filename, "r") as f:
''', '''    with open_file(filename, "r") as f, f:
''')],
  'demo': '''
import io, meshio, numpy as np, sys
m = meshio.Mesh(np.eye(3), [("triangle", np.array([[0, 1, 2]]))])
m.write("a.obj")
b = io.StringIO(open("a.obj").read())
meshio.read(b, "obj")
sys.exit(1 if b.closed else 0)
''',
  'needs': 'an OBJ file read from a buffer that the caller uses afterwards',
  'breaks': "the caller's buffer is closed"},
]
