// Random number source.
// SOURCES: projects/utilities/private/Random.cxx
// REPLACE: ~std::generate_canonical<double => vcs_canonical
// IRFLAGS: -fno-inline
// OPTS *: loop_bound=400
// ASSUMES: the standard library's generate_canonical consumes engine output and returns a number in [0,1) that depends on nothing else; mt19937_64 itself is executed
#include "common.h"
#include "SIREN/utilities/Random.h"
using siren::utilities::SIREN_random;
extern "C" double vcs_canonical(std::mt19937_64 & g) {
  unsigned long a = g();
  double u = vc_funi("canonical", (long)(a >> 1));
  vc_assume(u >= 0 && u < 1);
  return u;
}
#ifdef VC_NATIVE
static double canonical(unsigned long) { return 0; }
#endif
//@ Uniform(min,max) is in [min,max] for either order of the bounds and is the affine image of the same draw
VC_HARNESS(uniform) {
  SIREN_random r(1), s(1), t(1);
  double a = vc_real("a"), b = vc_real("b");
  double lo = a < b ? a : b, hi = a < b ? b : a;
  double x = r.Uniform(a, b), u = s.Uniform(), y = t.Uniform(b, a);
  vc_le(lo, x, "not below the range"); vc_le(x, hi, "not above the range");
  vc_le(0, u, "default range starts at 0"); vc_le(u, 1, "default range ends at 1");
  vc_eq(x, lo + u * (hi - lo), "uniform: affine image of the draw"); vc_eq(x, y, "bounds may be given in either order");
  vc_cover("uniform");
}
//@ PowerLaw(min,max,n) inverts the cumulative distribution of x^n on [min,max]
VC_HARNESS(power_law) {
  SIREN_random r(5), s(5);
  double lo = vc_pos("lo"), w = vc_pos("w"), n = vc_range("n", -5, 5); double hi = lo + w;
  vc_assume(n != -1);
  double x = r.PowerLaw(lo, hi, n), u = s.Uniform();
  vc_le(0, x, "positive");
  vc_eq(std::pow(x, n + 1) - std::pow(lo, n + 1), u * (std::pow(hi, n + 1) - std::pow(lo, n + 1)), "the cumulative distribution at the sample is the draw");
  double L = std::log(std::pow(x, n + 1)), l = (n + 1) * std::log(lo), h = (n + 1) * std::log(hi);
  vc_eq(L, (n + 1) * std::log(x), "log of the power");
  if(n > -1) { vc_le(l, h, "increasing powers"); vc_le(l, L, "power not below the range"); vc_le(L, h, "power not above the range"); }
  else { vc_le(h, l, "decreasing powers"); vc_le(h, L, "power not below the range"); vc_le(L, l, "power not above the range"); }
  vc_le(std::log(lo), std::log(x), "log not below the range"); vc_le(std::log(x), std::log(hi), "log not above the range");
  vc_le(lo, x, "not below the range"); vc_le(x, hi, "not above the range");
  vc_cover("power law");
}
//@ PowerLaw with index -1 is uniform in the logarithm
VC_HARNESS(power_law_log) {
  SIREN_random r(5), s(5);
  double lo = vc_pos("lo"), w = vc_pos("w"); double hi = lo + w;
  double x = r.PowerLaw(lo, hi, -1), u = s.Uniform();
  vc_eq(std::log(x) - std::log(lo), u * (std::log(hi) - std::log(lo)), "uniform in log");
  vc_le(lo, x, "not below the range"); vc_le(x, hi, "not above the range");
}
//@ The draws are a function of the seed alone: same seed, same sequence, whatever was drawn before; different seeds or successive draws use different engine output
VC_HARNESS(seeding) {
  SIREN_random r(12), s(12), t(7);
  vc_assert(r.get_seed() == 12, "seed is reported");
  double r1 = r.Uniform(), r2 = r.Uniform(), r3 = r.Uniform();
  double s1 = s.Uniform(), s2 = s.Uniform(), s3 = s.Uniform();
  vc_assert(r1 == s1 && r2 == s2 && r3 == s3, "same seed, same sequence");
  t.Uniform(); t.set_seed(12); vc_assert(t.get_seed() == 12, "new seed is reported");
  vc_assert(t.Uniform() == r1 && t.Uniform() == r2 && t.Uniform() == r3, "reseeding restarts the sequence of the seed");
  SIREN_random c(r); vc_assert(c.Uniform() == r.Uniform(), "a copy continues the sequence");
}
