// C34: the second file of the program
#include "c34_client.h"
#include <sstream>
Layout other_layout() { return layout(); }
std::string other_save(const npy::tensor<std::int32_t> &t, npy::endian_t e) {
  std::ostringstream o;
  npy::save(o, t, e);
  return o.str();
}
npy::tensor<std::int32_t> other_load(const std::string &bytes) {
  std::istringstream i(bytes);
  return npy::load<npy::tensor<std::int32_t>>(i);
}
npy::tensor<std::wstring> other_strings(const std::vector<std::wstring> &v) {
  npy::tensor<std::wstring> t(std::vector<std::size_t>{v.size()});
  t.copy_from(v);
  return t;
}
void other_write(npy::npzstringwriter &w, const std::string &name, const npy::tensor<double> &t) { w.write(name, t); }
void other_write(npy::npzfilewriter &w, const std::string &name, const npy::tensor<double> &t) { w.write(name, t); }
npy::tensor<double> other_read(npy::npzstringreader &r, const std::string &name) { return r.read<npy::tensor<double>>(name); }
npy::tensor<double> other_read(npy::npzfilereader &r, const std::string &name) { return r.read<npy::tensor<double>>(name); }
npy::header_info other_header(const std::string &dictionary) { return npy::header_info(dictionary); }
