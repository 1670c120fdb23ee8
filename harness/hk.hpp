// Common helpers of the harnesses: array construction, reference comparison, sparse matrices.
#pragma once
#include <psim.hpp>
#include <BLAS1.hpp>
#include <PlatoStaticsTypes.hpp>
#include <sstream>
#include <iostream>
#include <fstream>
#include <functional>
#include <limits>
#include <cfloat>
#include <cstdarg>
namespace psim {
using Vec = std::vector<double>;
using IVec = std::vector<int>;
typedef long double LD;
inline std::string str(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string str(const char* f, ...) {
  char b[700]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
// now and then a size beyond any plausible block or team size
inline int huge_size(Rng& r, int top) { int b = 256; while (2 * b <= top && r.chance(0.6)) b *= 2; return b + r.range(-1, 2); }
inline int pick_size(Rng& r, int big = 300) {
  if (r.chance(0.01)) return huge_size(r, big >= 150 ? 4096 : 512);
  switch (r.below(12)) {
    case 0: return 1; case 1: return 2; case 2: return 3; case 3: return r.range(4, 9); case 4: return r.range(10, 33);
    case 5: return r.range(60, 70); case 6: return r.range(120, 135);
    case 7: return r.chance(0.3) ? r.range(big / 2, big) : r.range(2, 20);
    default: return r.range(2, 24);
  }
}
inline bool vary_units = true;   // off where the reference is a difference quotient
inline Vec rand_vec(Rng& r, int n, bool smooth = false) { Vec v(n); for (auto& x : v) x = smooth ? r.smooth() : r.value(); if (!smooth && n && r.chance(0.08)) { int q = (int)r.below(3); if (q == 0) { double k = r.chance(0.5) ? 0 : r.value(); for (auto& x : v) x = k; } else if (q == 1) for (auto& x : v) x = v[r.below(std::min(n, 3))]; else for (auto& x : v) if (r.chance(0.5)) x = 0; }
  if (n && vary_units && r.chance(0.06)) { double k = std::pow(10.0, r.chance(0.7) ? r.range(-24, -7) : r.range(7, 15)); for (auto& x : v) x *= k; }   // a quantity in other units
  return v; }
inline Plato::ScalarVector to_view(const Vec& v, const std::string& l = "v") {
  Plato::ScalarVector x(l, v.size()); for (size_t i = 0; i < v.size(); i++) x(i) = v[i]; return x;
}
inline Plato::LocalOrdinalVector to_iview(const IVec& v, const std::string& l = "i") {
  Plato::LocalOrdinalVector x(l, v.size()); for (size_t i = 0; i < v.size(); i++) x(i) = v[i]; return x;
}
inline Plato::ScalarMultiVector to_view2(const Vec& v, int a, int b, const std::string& l = "m") {
  Plato::ScalarMultiVector x(l, a, b); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) x(i, j) = v[i * b + j]; return x;
}
inline Plato::ScalarArray3D to_view3(const Vec& v, int a, int b, int c, const std::string& l = "t") {
  Plato::ScalarArray3D x(l, a, b, c); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) for (int k = 0; k < c; k++) x(i, j, k) = v[(i * b + j) * c + k]; return x;
}
template <class V> inline Vec from_view(const V& x) { Vec v(x.extent(0)); for (size_t i = 0; i < v.size(); i++) v[i] = x(i); return v; }
inline IVec from_iview(const Plato::LocalOrdinalVector& x) { IVec v(x.extent(0)); for (size_t i = 0; i < v.size(); i++) v[i] = x(i); return v; }
template <class V> inline Vec from_view2(const V& x) { Vec v; v.reserve(x.extent(0) * x.extent(1)); for (size_t i = 0; i < x.extent(0); i++) for (size_t j = 0; j < x.extent(1); j++) v.push_back(x(i, j)); return v; }
template <class V> inline Vec from_view3(const V& x) { Vec v; v.reserve(x.size()); for (size_t i = 0; i < x.extent(0); i++) for (size_t j = 0; j < x.extent(1); j++) for (size_t k = 0; k < x.extent(2); k++) v.push_back(x(i, j, k)); return v; }

inline bool close(double got, double ref, double scale, double tol) {
  if (std::isnan(ref)) return std::isnan(got);
  if (std::isinf(ref)) return got == ref;
  return std::fabs(got - ref) <= tol * (std::fabs(ref) + scale) + 1e-290;
}
// Reference value with the magnitude of the terms it was summed from (error bound scale).
struct Ref { LD v = 0, a = 0; void add(LD x) { v += x; a += x < 0 ? -x : x; } };

inline void same(Sim& s, const char* cls, const Vec& got, const Vec& ref, const char* what) {   // bit-for-bit (inputs untouched, copies)
  s.evaluated(ref.size());
  if (got.size() != ref.size()) s.fail(cls, str("%s: length %zu instead of %zu", what, got.size(), ref.size()));
  for (size_t i = 0; i < ref.size(); i++)
    if (!(got[i] == ref[i] || (std::isnan(got[i]) && std::isnan(ref[i])))) s.fail(cls, str("%s: entry %zu of %zu is %.17g, expected %.17g", what, i, ref.size(), got[i], ref[i]));
  s.hash(got.data(), got.size() * 8);
}
inline void near(Sim& s, const char* cls, const Vec& got, const std::vector<Ref>& ref, const char* what, double tol = 1e-11) {
  s.evaluated(ref.size());
  if (got.size() != ref.size()) s.fail(cls, str("%s: length %zu instead of %zu", what, got.size(), ref.size()));
  for (size_t i = 0; i < ref.size(); i++)
    if (!close(got[i], (double)ref[i].v, (double)ref[i].a, tol)) s.fail(cls, str("%s: entry %zu of %zu is %.17g, expected %.17g", what, i, ref.size(), got[i], (double)ref[i].v));
  s.hash(got.data(), got.size() * 8);
}
inline void near1(Sim& s, const char* cls, double got, double ref, double scale, const char* what, double tol = 1e-11) {
  s.evaluated();
  if (!close(got, ref, scale, tol)) s.fail(cls, str("%s: %.17g, expected %.17g", what, got, ref));
  s.hash(got);
}
// The call must raise an exception (any std::exception).
template <class F> inline void must_throw(Sim& s, const char* cls, const char* what, F f) {
  bool threw = false;
  try { f(); } catch (const std::exception&) { threw = true; }
  s.check(threw, cls, str("%s: wrong input accepted silently", what));
}
// Runs f, in the faulty configuration sometimes with the k-th allocation inside failing. Returns true if f completed.
// A failed allocation must surface as an exception, never as a crash or (checked by the caller) a leak or wrong result.
template <class F> inline bool alloc_fault(Sim& s, double p, uint64_t maxk, F f) {
  uint64_t k = 0;
  if (!s.fault(F_ALLOC, p, maxk, &k)) { f(); return true; }
  bool threw = false, fired = false;
  heap_fail_at(k);
  try { f(); } catch (const std::exception&) { threw = true; }
  fired = heap_failed(); heap_disarm();
  s.evaluated();
  if (threw && !fired) s.fail("spurious-exception", "operation raised an exception although no allocation had failed");
  s.cover(str("allocation %d: %s", (int)k, threw ? "exception" : fired ? "tolerated" : "not reached"));
  return !threw;
}
// One workload step; everything it allocated must be released when it ends.
template <class F> inline void leak_checked(Sim& s, F f) {
  HeapStat b = heap_stat(); f(); HeapStat a = heap_stat(); s.evaluated();
  if (a.live != b.live) s.fail("leak", str("%lld blocks (%lld bytes) not released at the end of the operation", (long long)(a.live - b.live), (long long)(a.bytes - b.bytes)));
}
inline const char* szc(int n) { return n == 1 ? "1" : n < 4 ? "2-3" : n < 16 ? "4-15" : n < 64 ? "16-63" : n < 256 ? "64-255" : "256+"; }
}
