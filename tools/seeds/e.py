SEEDS = [
 {'id': 'S16a', 'property': 'P16',
  'edits': [('src/meshio/vtu/_vtu.py',
             '        # Read the block data\n        byte_array = base64.b64decode(data[num_header_chars:])\n        if self.byte_order is not None:\n            dtype = dtype.newbyteorder(\n                "<" if self.byte_order == "LittleEndian" else ">"\n            )\n',
             '        # Read the block data\n        byte_array = base64.b64decode(data[num_header_chars:])\n')],
  'demo': '''
import meshio, numpy as np, sys, base64, zlib
p = np.array([[0.0, 0, 0], [1, 0, 0], [0, 1, 0]])
def enc(a):
    raw = a.tobytes()
    c = zlib.compress(raw)
    h = np.array([1, len(raw), 0, len(c)], ">u4").tobytes()
    return base64.b64encode(h).decode() + base64.b64encode(c).decode()
def da(name, typ, a, comp=None):
    n = f' NumberOfComponents="{comp}"' if comp else ""
    return f'<DataArray type="{typ}" Name="{name}"{n} format="binary">{enc(a)}</DataArray>'
open("a.vtu", "w").write(
    '<VTKFile type="UnstructuredGrid" version="0.1" byte_order="BigEndian" header_type="UInt32" compressor="vtkZLibDataCompressor"><UnstructuredGrid>'
    '<Piece NumberOfPoints="3" NumberOfCells="1"><Points>' + da("Points", "Float64", p.astype(">f8"), 3) + "</Points><Cells>"
    + da("connectivity", "Int32", np.array([0, 1, 2], ">i4")) + da("offsets", "Int32", np.array([3], ">i4")) + da("types", "UInt8", np.array([5], "u1"))
    + "</Cells></Piece></UnstructuredGrid></VTKFile>")
try:
    m = meshio.read("a.vtu")
    ok = np.array_equal(m.points, p) and np.array_equal(m.cells[0].data, [[0, 1, 2]])
except BaseException as e:
    ok = False
sys.exit(0 if ok else 1)
''',
  'needs': 'a zlib-compressed VTU file in big-endian byte order',
  'breaks': 'all arrays are decoded in native byte order'},
 {'id': 'S16b', 'property': 'P16',
  'edits': [('src/meshio/medit/_medit.py', '        itype += swapped\n        ftype += swapped\n', '        itype += swapped\n')],
  'demo': '''
import meshio, numpy as np, sys
p = np.array([[0.0, 0.5], [1, 0], [0, 1]])
with open("a.meshb", "wb") as f:
    np.array([1, 2, 3, 0, 2], ">i4").tofile(f)
    np.array([4, 0, 3], ">i4").tofile(f)
    v = np.zeros(3, dtype=[("x", ">f8", (2,)), ("r", ">i4")]); v["x"] = p; v.tofile(f)
    np.array([6, 0, 1, 1, 2, 3, 7], ">i4").tofile(f)
    np.array([54, 0], ">i4").tofile(f)
m = meshio.read("a.meshb")
sys.exit(0 if np.array_equal(m.points, p) else 1)
''',
  'needs': 'a binary Medit file written on a machine of the other byte order',
  'breaks': 'coordinates are read in the wrong byte order'},
 {'id': 'S16c', 'property': 'P16',
  'edits': [('src/meshio/ugrid/_ugrid.py', '    "lr4": {"type": "F", "float_type": "<f4", "int_type": "<i4"},', '    "lr4": {"type": "F", "float_type": "<f8", "int_type": "<i4"},')],
  'demo': '''
import meshio, numpy as np, sys
p = np.array([[0.0, 0.5, 0], [1, 0, 0.25], [0, 1, 0], [0, 0, 1]])
m = meshio.Mesh(p, [("tetra", np.array([[0, 1, 2, 3]]))])
m.write("a.lr4.ugrid")
sys.exit(0 if p.astype("<f4").tobytes() in open("a.lr4.ugrid", "rb").read() else 1)
''',
  'needs': 'a UGRID file with the name suffix .lr4.ugrid exchanged with another program',
  'breaks': 'coordinates are stored as doubles in a file whose suffix declares single precision'},
]
