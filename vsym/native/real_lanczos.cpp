// the project's extension plus, for replays, its header-only helper
#include "_lanczos.cpp"
#ifdef WITH_ORTH
PYBIND11_MODULE(_lanczos_extra, m){
  m.def("orth_vector", [](py::array_t< double, py::array::f_style >& v, py::array_t< double, py::array::f_style >& U, int start, int p, bool reverse){
    Eigen::Map< Vector< double > > vm(v.mutable_data(), v.size()); Eigen::Map< const DenseMatrix< double > > um(U.data(), U.shape(0), U.shape(1));
    orth_vector< double >(vm, um, start, p, reverse);
  });
}
#endif
