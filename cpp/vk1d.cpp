// One-dimensional interpolators as objects, to enumerate histories of calls.
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>

#include <memory>
#include <string>

#include "pyinterp/detail/interpolation/factory_1d.hpp"

namespace py = pybind11;
using Vec = pyinterp::Vector<double>;

class Interpolator {
 public:
  explicit Interpolator(const std::string &kind)
      : ptr_(pyinterp::detail::interpolation::factory_1d<double>(kind)) {}

  auto call(const Vec &x, const Vec &y, const Vec &xi) -> Vec {
    return (*ptr_)(x, y, xi);
  }
  auto one(const Vec &x, const Vec &y, double xi) -> double {
    return (*ptr_)(x, y, xi);
  }
  auto derivative(const Vec &x, const Vec &y, const Vec &xi) -> Vec {
    return ptr_->derivative(x, y, xi);
  }
  auto min_size() -> int64_t { return ptr_->min_size(); }

 private:
  std::unique_ptr<pyinterp::detail::interpolation::Interpolator1D<double>> ptr_;
};

PYBIND11_MODULE(vk1d, m) {
  py::class_<Interpolator>(m, "Interpolator")
      .def(py::init<std::string>())
      .def("__call__", &Interpolator::call)
      .def("one", &Interpolator::one)
      .def("derivative", &Interpolator::derivative)
      .def("min_size", &Interpolator::min_size);
}
