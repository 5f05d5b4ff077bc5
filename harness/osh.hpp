// helpers shared by the harnesses
#ifndef VERIF_OSH_HPP
#define VERIF_OSH_HPP
#include <Omega_h_array.hpp>
#include <Omega_h_array_ops.hpp>
#include <Omega_h_comm.hpp>
#include <Omega_h_library.hpp>
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "mc.hpp"
#ifdef OMEGA_H_USE_MPI
#include "minimpi.hpp"
#endif

namespace oh = Omega_h;
using oh::GO;
using oh::I32;
using oh::I64;
using oh::I8;
using oh::Int;
using oh::LO;
using oh::Real;

template <class T>
std::vector<T> vec(oh::Read<T> a) {
  std::vector<T> v;
  if (!a.exists()) return v;
  for (LO i = 0; i < a.size(); ++i) v.push_back(a[i]);
  return v;
}
template <class T>
std::vector<T> vec(oh::Write<T> a) {
  return vec(oh::Read<T>(a));
}
template <class T>
oh::Read<T> arr(std::vector<T> const& v) {
  oh::Write<T> w(LO(v.size()));
  for (size_t i = 0; i < v.size(); ++i) w[LO(i)] = v[i];
  return w;
}
template <class T>
std::string str(std::vector<T> const& v) {
  std::ostringstream s;
  s.precision(17);
  s << '[';
  for (size_t i = 0; i < v.size(); ++i) s << (i ? " " : "") << +v[i];
  s << ']';
  return s.str();
}
template <class T>
std::string str(std::vector<std::vector<T>> const& v) {
  std::string s = "[";
  for (auto& x : v) s += str(x);
  return s + "]";
}
template <class T>
uint64_t hash_of(std::vector<T> const& v) {
  mc::Hash h;
  h.add(v.size());
  for (auto& x : v) h.add(x);
  return h.h;
}
// choose a vector of `len` digits below base
inline std::vector<int> choose_digits(mc::Ctx& c, int len, int base) {
  std::vector<int> v;
  for (int i = 0; i < len; ++i) v.push_back(c.choose(base));
  return v;
}
inline std::vector<int> choose_perm(mc::Ctx& c, int n) {
  std::vector<int> left, out;
  for (int i = 0; i < n; ++i) left.push_back(i);
  while (!left.empty()) {
    int k = c.choose(int(left.size()));
    out.push_back(left[size_t(k)]);
    left.erase(left.begin() + k);
  }
  return out;
}
#endif
