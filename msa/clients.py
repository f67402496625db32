"""Client code whose behaviour is analysed (read as source; never executed)."""
import meshio
from meshio.xdmf import TimeSeriesReader, TimeSeriesWriter


def series_read(filename):
    with TimeSeriesReader(filename) as reader:
        points, cells = reader.read_points_cells()
        time, point_data, cell_data = reader.read_data(0)
    return meshio.Mesh(points, cells, point_data=point_data, cell_data=cell_data)


def series_write(filename, mesh, data_format="HDF"):
    with TimeSeriesWriter(filename, data_format) as writer:
        writer.write_points_cells(mesh.points, mesh.cells)
        writer.write_data(0.0, point_data=mesh.point_data, cell_data=mesh.cell_data)


meshio.register_format("xdmf:series", [], series_read, {"xdmf:series": series_write})
