// The geodetic classes that the geohash functions take, without the rest of
// their (slow to compile) bindings.
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include "pyinterp/geodetic/box.hpp"
#include "pyinterp/geodetic/multipolygon.hpp"
#include "pyinterp/geodetic/point.hpp"
#include "pyinterp/geodetic/polygon.hpp"
#include "pyinterp/geodetic/spheroid.hpp"

namespace py = pybind11;
namespace geodetic = pyinterp::geodetic;

void init_geodetic(py::module &m) {
  py::class_<geodetic::Spheroid>(m, "Spheroid")
      .def(py::init<>())
      .def(py::init<double, double>())
      .def_property_readonly(
          "semi_major_axis",
          [](const geodetic::Spheroid &s) { return s.semi_major_axis(); })
      .def_property_readonly("flattening", [](const geodetic::Spheroid &s) {
        return s.flattening();
      });
  py::class_<geodetic::Point>(m, "Point")
      .def(py::init<double, double>())
      .def_property_readonly("lon",
                             [](const geodetic::Point &p) { return p.lon(); })
      .def_property_readonly("lat",
                             [](const geodetic::Point &p) { return p.lat(); });
  py::class_<geodetic::Box>(m, "Box")
      .def(py::init<geodetic::Point, geodetic::Point>())
      .def_static("whole_earth", &geodetic::Box::whole_earth)
      .def_property_readonly(
          "min_corner",
          [](const geodetic::Box &box) -> geodetic::Point {
            return box.min_corner();
          })
      .def_property_readonly(
          "max_corner", [](const geodetic::Box &box) -> geodetic::Point {
            return box.max_corner();
          });
  py::class_<geodetic::Polygon>(m, "Polygon")
      .def(py::init<py::list, py::list>(), py::arg("outer"),
           py::arg("inners") = py::list());
  py::class_<geodetic::MultiPolygon>(m, "MultiPolygon")
      .def(py::init<py::list>());
}
