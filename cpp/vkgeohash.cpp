// Both ways of coding a position (portable, and with the BMI2 instructions),
// whatever the processor chooses.
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>

#include "pyinterp/../../lib/geohash/int64.cpp"

namespace py = pybind11;
namespace codec = pyinterp::geohash::int64::codec;
using U = pyinterp::Vector<uint64_t>;

PYBIND11_MODULE(vkgeohash, m) {
  m.def("bmi2", [] { return codec::has_bmi2(); });
  m.def("portable", [](const Eigen::VectorXd &lon, const Eigen::VectorXd &lat) {
    U r(lon.size());
    for (auto i = 0; i < lon.size(); ++i) r[i] = codec::encode(lat[i], lon[i]);
    return r;
  });
  m.def("fast", [](const Eigen::VectorXd &lon, const Eigen::VectorXd &lat) {
    U r(lon.size());
    for (auto i = 0; i < lon.size(); ++i)
      r[i] = codec::encode_bim2(lat[i], lon[i]);
    return r;
  });
  m.def("deinterleave", [](const U &x, bool fast) {
    U a(x.size());
    U b(x.size());
    for (auto i = 0; i < x.size(); ++i) {
      auto [u, v] = fast ? codec::deinterleave_bim2(x[i])
                         : codec::deinterleave(x[i]);
      a[i] = u;
      b[i] = v;
    }
    return std::make_tuple(a, b);
  });
}
