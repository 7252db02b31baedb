// Metropolis-Hastings chain of ModifiedMoyalPlusExponentialEnergyDistribution, over the contract of its density (X01.cpp, harness moyal).
// SOURCES: projects/distributions/private/Distributions.cxx projects/distributions/private/primary/energy/PrimaryEnergyDistribution.cxx projects/distributions/private/primary/energy/ModifiedMoyalPlusExponentialEnergyDistribution.cxx projects/utilities/private/Random.cxx projects/math/private/Vector3D.cxx projects/dataclasses/private/InteractionRecord.cxx projects/dataclasses/private/InteractionSignature.cxx projects/dataclasses/private/Particle.cxx projects/dataclasses/private/ParticleID.cxx projects/dataclasses/private/ParticleType.cxx
// REPLACE: siren::utilities::SIREN_random::Uniform(double, double) => vcs_uniform
// REPLACE: siren::distributions::ModifiedMoyalPlusExponentialEnergyDistribution::pdf(double) const => vcs_pdf
// REPLACE: ~rombergIntegrate<std::function => vcs_romberg
// IRFLAGS: -fno-inline
// LOOPINV: ModifiedMoyalPlusExponentialEnergyDistribution::SampleEnergy => in_range density_of same
// ASSUMES: SIREN_random::Uniform(a,b) returns a + u (b-a) with u in [0,1] (its contract, property U03)
#include "common.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/utilities/Random.h"
#include "SIREN/distributions/primary/energy/ModifiedMoyalPlusExponentialEnergyDistribution.h"
#include <functional>
using namespace siren::distributions; using siren::utilities::SIREN_random;
using siren::dataclasses::PrimaryDistributionRecord; using siren::dataclasses::ParticleType;
static double elo, ehi, cur, cand; static bool started;
static double pdf(double e) { double v = vc_fun1("pdf", e); vc_assume(v > 0); return v; }
extern "C" double vcs_pdf(ModifiedMoyalPlusExponentialEnergyDistribution const *, double e) { return pdf(e); }
extern "C" double vcs_romberg(std::function<double(double)> const &, double, double, double) { return 1; }
// ghost Metropolis-Hastings chain fed with the same draws: proposals over the range, acceptance draws in [0,1]
extern "C" double vcs_uniform(SIREN_random*, double a, double b) {
  double u = vc_real("u"); vc_assume(u >= 0 && u <= 1);
  if(a == 0 && b == 1) { if(u * pdf(cur) < pdf(cand)) cur = cand; return u; }
  vc_assert(a == elo && b == ehi, "proposals cover the energy range uniformly");
  double v = elo + u * (ehi - elo);
  if(!started) { started = true; cur = v; cand = v; return v; }
  cand = v; if(pdf(cand) > pdf(cur)) cur = cand;
  return v;
}
extern "C" bool in_range(double x) { return (elo <= x) & (x <= ehi); }
extern "C" bool density_of(double x, double y) { return y == vc_fun1("pdf", x); }
extern "C" bool same(double x, double y) { return x == y; }
//@ ModifiedMoyalPlusExponential sampling: for any number of steps a proposal is accepted exactly when its density is higher or the draw is below the ratio of densities; the result is the point of the chain
VC_HARNESS(moyal_chain) {
  elo = vc_pos("lo"); ehi = elo + vc_pos("w");
#ifdef VC_NATIVE
  elo = 1 + std::fmod(elo, 10); ehi = elo + 1;
#endif
  ModifiedMoyalPlusExponentialEnergyDistribution d(elo, ehi, 1, 1, 1, 1, 1, false);
#ifdef VC_NATIVE
  auto r = std::make_shared<SIREN_random>(vc_int_in("seed", 1, 1000000));
  SIREN_random q(*r);
#else
  std::shared_ptr<SIREN_random> r; cur = elo; cand = elo;
#endif
  PrimaryDistributionRecord rec(ParticleType::NuMu);
  d.Sample(r, nullptr, nullptr, rec);
  double s = rec.GetEnergy();
#ifdef VC_NATIVE
  // reference chain on a copy of the generator; the burn-in length is where the two generators agree
  double x = q.Uniform(elo, ehi); bool hit = false;
  for(int k = 0; k < 2000 && !hit; ++k) {
    double y = q.Uniform(elo, ehi), o = d.pdf(y) / d.pdf(x);
    if(o > 1 || q.Uniform(0, 1) < o) x = y;
    SIREN_random a(q), b(*r); hit = a.Uniform(0, 1) == b.Uniform(0, 1);
  }
  vc_assert(hit && x == s, "the sample is the point of the chain");
#else
  vc_assert(started, "a point is drawn");
  vc_assert(s == cur, "the sample is the point of the chain");
#endif
  vc_assert(elo <= s && s <= ehi, "the sample is in the range");
  vc_cover("moyal chain");
}
