// Primary direction distributions.
// SOURCES: projects/distributions/private/Distributions.cxx projects/distributions/private/primary/direction/PrimaryDirectionDistribution.cxx projects/distributions/private/primary/direction/Cone.cxx projects/distributions/private/primary/direction/FixedDirection.cxx projects/distributions/private/primary/direction/IsotropicDirection.cxx projects/utilities/private/Random.cxx projects/math/private/Vector3D.cxx projects/math/private/Quaternion.cxx projects/math/private/Matrix3D.cxx projects/math/private/EulerAngles.cxx projects/dataclasses/private/InteractionRecord.cxx projects/dataclasses/private/InteractionSignature.cxx projects/dataclasses/private/Particle.cxx projects/dataclasses/private/ParticleID.cxx projects/dataclasses/private/ParticleType.cxx
// REPLACE: siren::utilities::SIREN_random::Uniform(double, double) => vcs_uniform
// ASSUMES: SIREN_random::Uniform(a,b) returns a + u (b-a) with u in [0,1] (its contract, property U03)
#include "common.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/utilities/Random.h"
#include "SIREN/distributions/primary/direction/Cone.h"
#include "SIREN/distributions/primary/direction/FixedDirection.h"
#include "SIREN/distributions/primary/direction/IsotropicDirection.h"
using namespace siren::distributions; using siren::utilities::SIREN_random; using siren::math::Vector3D;
using siren::dataclasses::PrimaryDistributionRecord; using siren::dataclasses::InteractionRecord; using siren::dataclasses::ParticleType;
static double dlo[4], dhi[4], dr[4]; static int ndraws = 0;
extern "C" double vcs_uniform(SIREN_random*, double a, double b) {
  double lo = a <= b ? a : b, hi = a <= b ? b : a;
  double u = vc_real("u"); vc_assume(u >= 0 && u <= 1);
  double r = lo + u * (hi - lo);
  vc_assume(lo <= r && r <= hi);
  if(ndraws < 4) { dlo[ndraws] = lo; dhi[ndraws] = hi; dr[ndraws] = r; }
  ++ndraws; return r;
}
#ifdef VC_NATIVE
static std::shared_ptr<SIREN_random> any_rand() { return std::make_shared<SIREN_random>(vc_int_in("seed", 1, 1000000)); }
#else
static std::shared_ptr<SIREN_random> any_rand() { return nullptr; }
#endif
static A3 sample(PrimaryDirectionDistribution const & d) {
  PrimaryDistributionRecord rec(ParticleType::NuMu);
  d.Sample(any_rand(), nullptr, nullptr, rec);
  return rec.GetDirection();
}
static double genprob(WeightableDistribution const & d, double k, A3 const & v) {
  InteractionRecord r; r.primary_momentum = {k, k * v[0], k * v[1], k * v[2]};
  return d.GenerationProbability(nullptr, nullptr, r);
}
static void cone(A3 a) {
  double k = vc_pos("k"), al = vc_range("al", 0, M_PI);
#ifdef VC_NATIVE
  vc_assume(k > 1e-3 && k < 1e3);
#endif
  Cone d(Vector3D(k * a[0], k * a[1], k * a[2]), al);
  A3 s = sample(d);
  vc_eq(dot3(s, s), 1, "unit vector");
#ifndef VC_NATIVE
  vc_assert(ndraws == 2, "two draws");
  int c = dhi[0] == 1 ? 0 : 1;
  vc_trig_half(std::acos(dr[c])); vc_trig_half(dr[1 - c]);
  vc_assert(dlo[c] == std::cos(al) && dhi[c] == 1, "the cosine to the axis covers [cos alpha, 1] uniformly"); vc_eq(dhi[1 - c] - dlo[1 - c], 2 * M_PI, "the azimuth covers a full turn");
  vc_eq(dot3(s, a), dr[c], "the cosine to the axis is the draw");
#endif
  vc_le(std::cos(al), dot3(s, a), "inside the cone");
  vc_cover("cone");
}
//@ IsotropicDirection: unit vectors, cos(theta) and phi uniform over the whole sphere, density 1/4pi everywhere
VC_HARNESS(isotropic) {
  IsotropicDirection d; A3 s = sample(d), v = any_unit("t", "p");
  vc_eq(dot3(s, s), 1, "unit vector"); vc_eq(genprob(d, vc_pos("k"), v) * 4 * M_PI, 1, "density 1/(4 pi)");
#ifndef VC_NATIVE
  // one of the draws is the cosine of the polar angle over all of [-1,1], the other the azimuth over one full turn
  vc_assert(ndraws == 2, "two draws");
  int c = dlo[0] == -1 ? 0 : 1;
  vc_assert(dlo[c] == -1 && dhi[c] == 1, "the cosine covers [-1,1]"); vc_eq(dhi[1 - c] - dlo[1 - c], 2 * M_PI, "the azimuth covers a full turn");
  bool z = s[2] == dr[c] || s[2] == -dr[c];
  vc_assert(z, "the polar cosine is the draw");
  double ph = dr[1 - c], r2 = 1 - dr[c] * dr[c];
  vc_eq(s[0] * std::sin(ph), s[1] * std::cos(ph), "the azimuth is the draw"); vc_eq(sq(s[0]) + sq(s[1]), r2, "transverse length");
#endif
  vc_cover("isotropic");
}
//@ FixedDirection: always the given direction, probability one for it, zero for every other direction, whatever the length of the given vector
VC_HARNESS(fixed) {
  A3 a = any_unit("t", "p"), b = any_unit("t2", "p2"); double k = vc_pos("k"), m = vc_pos("m");
#ifdef VC_NATIVE
  vc_assume(k > 1e-3 && k < 1e3);
#endif
  FixedDirection d(Vector3D(k * a[0], k * a[1], k * a[2]));
  A3 s = sample(d); VC_EQA3(s, a, "the sample is the given direction");
  vc_assert(genprob(d, m, a) == 1, "probability one for the direction");
  double c = dot3(a, b); A3 e = {a[0] - b[0], a[1] - b[1], a[2] - b[2]};
  vc_eq(2 * (1 - c), dot3(e, e), "lemma: half the squared distance"); vc_le(0, dot3(e, e), "lemma: square"); vc_le(c, 1, "lemma: Cauchy-Schwarz");
  Vector3D na = Vector3D(k * a[0], k * a[1], k * a[2]).normalized(), nb = Vector3D(m * b[0], m * b[1], m * b[2]).normalized();
  vc_eq(siren::math::scalar_product(na, nb), c, "lemma: product of the normalised vectors");
  double p = genprob(d, m, b);
  if(c < 1 - 2e-9) vc_assert(p == 0, "zero for every other direction");
  if(c > 1 - 0.5e-9) vc_assert(p == 1, "one within the tolerance");
  vc_cover("fixed");
}
//@ Cone construction and density: density 1/(2 pi (1-cos alpha)) inside the cone around the axis, zero outside
VC_HARNESS(cone_density) {
  A3 a = any_unit("t", "p"), b = any_unit("t2", "p2"); double k = vc_pos("k"), m = vc_pos("m"), al = vc_range("al", 0, M_PI);
  vc_assume(al > 0);
#ifdef VC_NATIVE
  vc_assume(k > 1e-3 && k < 1e3 && al > 0.01 && m > 1e-3 && m < 1e3);
#endif
  Cone d(Vector3D(k * a[0], k * a[1], k * a[2]), al);
  double c = dot3(a, b), ca = std::cos(al); A3 e = {a[0] - b[0], a[1] - b[1], a[2] - b[2]}, f = {a[0] + b[0], a[1] + b[1], a[2] + b[2]};
  vc_eq(2 * (1 - c), dot3(e, e), "lemma: half the squared distance"); vc_eq(2 * (1 + c), dot3(f, f), "lemma: half the squared sum"); vc_le(0, dot3(e, e), "lemma: square"); vc_le(c, 1, "lemma: Cauchy-Schwarz"); vc_le(0, dot3(f, f), "lemma: square (sum)"); vc_le(-1, c, "lemma: Cauchy-Schwarz (opposite)");
  Vector3D na = Vector3D(k * a[0], k * a[1], k * a[2]).normalized(), nb = Vector3D(m * b[0], m * b[1], m * b[2]).normalized();
  vc_eq(siren::math::scalar_product(na, nb), c, "lemma: product of the normalised vectors");
  double p = genprob(d, m, b);
#ifdef VC_NATIVE
  vc_assume(std::fabs(c - ca) > 1e-9);
#endif
  if(c > ca) vc_eq(p * 2 * M_PI * (1 - ca), 1, "uniform density inside the cone"); 
  if(c < ca) vc_assert(p == 0, "zero outside the cone");
  vc_cover("cone density");
}
//@ Cone sampling around an arbitrary axis
VC_HARNESS(cone_any) { cone(any_unit("t", "p")); }
//@ Cone sampling around the z axis and against it
VC_HARNESS(cone_up) { cone({0, 0, 1}); }
//@ Cone sampling against the z axis
VC_HARNESS(cone_down) { cone({0, 0, -1}); }
