#pragma once
#include "vc.h"
#include <array>
#include <vector>
#include <stdexcept>
// three-vectors --------------------------------------------------------------------------------
#define VC_EQ3(a, b, label) do { auto const & a_ = (a); auto const & b_ = (b); \
  vc_eq(a_.GetX(), b_.GetX(), label " [x]"); vc_eq(a_.GetY(), b_.GetY(), label " [y]"); vc_eq(a_.GetZ(), b_.GetZ(), label " [z]"); } while(0)
#define VC_EQA3(a, b, label) do { auto const & a_ = (a); auto const & b_ = (b); \
  vc_eq(a_[0], b_[0], label " [0]"); vc_eq(a_[1], b_[1], label " [1]"); vc_eq(a_[2], b_[2], label " [2]"); } while(0)
#define VC_EQA4(a, b, label) do { auto const & a_ = (a); auto const & b_ = (b); \
  vc_eq(a_[0], b_[0], label " [0]"); vc_eq(a_[1], b_[1], label " [1]"); vc_eq(a_[2], b_[2], label " [2]"); vc_eq(a_[3], b_[3], label " [3]"); } while(0)
typedef std::array<double, 3> A3;
typedef std::array<double, 4> A4;
static inline double sq(double x) { return x * x; }
static inline double dot3(A3 const & a, A3 const & b) { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]; }
// any unit vector (spherical parametrisation covers them all)
static inline A3 any_unit(const char* th, const char* ph) {
  double t = vc_range(th, 0, M_PI), p = vc_range(ph, -M_PI, M_PI);
  return {std::sin(t) * std::cos(p), std::sin(t) * std::sin(p), std::cos(t)};
}
