SEEDS = [{'id': 'S09b',
  'property': 'P09',
  'edits': [('src/meshio/flac3d/_flac3d.py',
             'f.write(struct.pack("<I3d", i + 1, *point))',
             'f.write(struct.pack("<I3d", i + 1, *np.asarray(point, dtype=np.float32)))')],
  'demo': '\n'
          'import meshio, numpy as np, sys\n'
          'p = np.random.rand(4, 3)\n'
          'm = meshio.Mesh(p, [("tetra", np.array([[0, 1, 2, 3]]))])\n'
          'm.write("a.f3grid", binary=True)\n'
          'sys.exit(0 if (meshio.read("a.f3grid").points == p).all() else 1)\n',
  'needs': 'binary FLAC3D output of coordinates that are not exact in single precision',
  'breaks': 'coordinates are rounded to single precision'},
 {'id': 'S10a',
  'property': 'P10',
  'edits': [('src/meshio/off/_off.py',
             'points = np.column_stack([mesh.points, np.zeros_like(mesh.points[:, 0])])',
             'points = np.column_stack([np.zeros_like(mesh.points[:, 0]), mesh.points])')],
  'demo': '\n'
          'import meshio, numpy as np, sys\n'
          'p = np.random.rand(3, 2)\n'
          'm = meshio.Mesh(p, [("triangle", np.array([[0, 1, 2]]))])\n'
          'm.write("a.off")\n'
          'sys.exit(0 if np.allclose(meshio.read("a.off").points[:, :2], p) else 1)\n',
  'needs': 'a two-dimensional mesh written to OFF',
  'breaks': 'the coordinates are shifted by one column (0, x, y instead of x, y, 0)'},
 {'id': 'S11a',
  'property': 'P11',
  'edits': [('src/meshio/hmf/_hmf.py',
             '    raw = raw_from_cell_data(cell_data)\n',
             '    raw = dict(zip(sorted(cell_data), raw_from_cell_data(cell_data).values()))\n')],
  'demo': '\n'
          'import meshio, numpy as np, sys, h5py\n'
          'm = meshio.Mesh(np.random.rand(3, 3), [("triangle", np.array([[0, 1, 2]]))], cell_data={"z": [np.array([1.0])], "a": [np.array([2.0])]})\n'
          'm.write("a.hmf")\n'
          'found = {}\n'
          'h5py.File("a.hmf", "r").visititems(lambda n, o: found.__setitem__(n.split("/")[-1], o[()].tolist()) if isinstance(o, h5py.Dataset) else '
          'None)\n'
          'sys.exit(0 if found["z"] == [1.0] and found["a"] == [2.0] else 1)\n',
  'needs': 'two cell data arrays whose names are not in alphabetical order',
  'breaks': "the arrays are stored under each other's name"}]
