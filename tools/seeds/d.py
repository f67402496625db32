SEEDS = [{'id': 'S08b',
  'property': 'P08',
  'edits': [('src/meshio/vtk/_vtk_42.py',
             '        line = f.readline().decode().strip()\n        if not line:\n            # end of metadata is a blank line\n            break',
             '        # end of metadata is a blank line\n        if f.readline().decode() in ("\\n", "\\r\\n"):\n            break')],
  'demo': '\n'
          'import meshio, sys, signal\n'
          'open("a.vtk", "w").write("# vtk DataFile Version 4.2\\nx\\nASCII\\nDATASET UNSTRUCTURED_GRID\\nPOINTS 3 double\\n0 0 0 1 0 0 0 1 '
          '0\\nMETADATA\\nINFORMATION 0\\n")\n'
          'signal.alarm(20)\n'
          'try:\n'
          '    m = meshio.read("a.vtk")\n'
          'except (Exception, SystemExit):\n'
          '    pass\n'
          'sys.exit(0)\n',
  'needs': 'a VTK 4.2 file that is cut off inside a METADATA section',
  'breaks': 'the reader spins forever at the end of the file'}]
