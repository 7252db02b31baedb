// Two-body decays of heavy neutral leptons and of W and Z.
// SOURCES: projects/interactions/private/HNLDecay.cxx projects/interactions/private/ElectroweakDecay.cxx projects/interactions/private/Decay.cxx projects/dataclasses/private/InteractionRecord.cxx projects/dataclasses/private/InteractionSignature.cxx projects/dataclasses/private/Particle.cxx projects/dataclasses/private/ParticleID.cxx projects/dataclasses/private/ParticleType.cxx projects/math/private/Vector3D.cxx projects/utilities/private/Random.cxx vendor/rk/rk/rk.cc vendor/rk/rk/geom3.cc
// NATIVE: projects/detector/private/MaterialModel.cxx projects/detector/private/AtomicMasses.cxx vendor/crundec3/CRunDec3.1/CRunDec.cpp
// REPLACE: CRunDec::CRunDec() => vcs_nothing
// REPLACE: siren::dataclasses::GetParticleMass(siren::dataclasses::ParticleType) => vcs_mass
// IRFLAGS: -fno-inline
// REPLACE: siren::utilities::SIREN_random::Uniform(double, double) => vcs_uniform
// REPLACE: ~geom3::rotationBetween<geom3::UnitVector3, geom3::UnitVector3> => vcs_between
// REPLACE: geom3::Rotation3::Rotation3(geom3::UnitVector3 const&, double) => vcs_axisrot
// REPLACE: rk::P4::rotate(geom3::Rotation3 const&) => vcs_rotate
// REPLACE: rk::P4::boost(rk::Boost const&) => vcs_boost
// ASSUMES: the contracts of rotations and boosts of the four-vector library are those proved in K01_rk
#include "common.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/dataclasses/ParticleMasses.h"
#include "SIREN/interactions/HNLDecay.h"
#include "SIREN/interactions/ElectroweakDecay.h"
#include "SIREN/utilities/Random.h"
#include "SIREN/utilities/Constants.h"
#include "kin.h"
using namespace siren::interactions; using siren::dataclasses::InteractionRecord; using siren::dataclasses::CrossSectionDistributionRecord; using siren::dataclasses::ParticleType; using siren::utilities::SIREN_random;
#include "kindraw.h"
#ifndef VC_NATIVE
static ParticleType lepton; static double mlep, mx;
extern "C" double vcs_mass(ParticleType t) { return t == lepton ? mlep : mx; }
extern "C" void vcs_nothing(void*) {}
#endif
// HNLDecay, two products of any masses: four-momentum is conserved and the angle follows the stated law
static void hnl_two(int k) {
  bool dirac = k == 1 || vc_bool("dirac"), bar = vc_bool("bar"), swap = k == 1 ? bar : vc_bool("swap"); ParticleType x = ParticleType::Pi0, l = bar ? ParticleType::NuMuBar : ParticleType::NuMu;
  if(k == 1) x = ParticleType::Rho0; if(k == 2) { x = bar ? ParticleType::KMinus : ParticleType::KPlus; l = bar ? ParticleType::MuPlus : ParticleType::MuMinus; }
#ifdef VC_NATIVE
  double mx = siren::dataclasses::GetParticleMass(x), mlep = siren::dataclasses::GetParticleMass(l); double m = mx + mlep + mass("m");
#else
  lepton = l; mlep = vc_real("mlep"); vc_assume(mlep >= 0); mx = vc_pos("mx"); double m = vc_pos("m"); vc_assume(mlep + mx < m);
#endif
  HNLDecay d(m, std::vector<double>{1e-3, 1e-3, 1e-3}, dirac ? HNLDecay::ChiralNature::Dirac : HNLDecay::ChiralNature::Majorana);
  InteractionRecord r = mother(bar ? ParticleType::N4Bar : ParticleType::N4, m); if(swap) r.signature.secondary_types = {x, l}; else r.signature.secondary_types = {l, x};
  double alpha = dirac ? d.GetAlpha(x) * ((r.primary_helicity > 0) == bar ? 1 : -1) : 0; if(k == 1) { auto const & P = r.primary_momentum; vc_assume(alpha * alpha > 1e-6); vc_assume(sq(P[1]) + sq(P[2]) + sq(P[3]) > VC_TINY); }
  CrossSectionDistributionRecord c(r); int seed = 1; d.SampleFinalState(c, rng(seed)); InteractionRecord out = r; c.Finalize(out);
  two_body(r, out, swap ? 0 : 1, mx, mlep);
  auto const & P = r.primary_momentum; double p = std::sqrt(P[1] * P[1] + P[2] * P[2] + P[3] * P[3]), e = (m * m + mx * mx - mlep * mlep) / (2 * m), q = std::sqrt(e * e - mx * mx);
#ifdef VC_NATIVE
  vc_assert(follows(dipole_law, out.secondary_momenta[swap ? 0 : 1][0] * m - P[0] * e, p * q, alpha, seed), "the cosine of the meson in the rest frame follows 1 + alpha cos");
#else
  vc_assert(follows(dipole_law, kin_b[0].par, q, alpha, seed), "the cosine of the meson in the rest frame follows 1 + alpha cos");
#endif
}
//@ HNLDecay to a neutrino and a neutral pseudoscalar
VC_HARNESS(hnl_scalar) { hnl_two(0); vc_cover("hnl scalar"); }
//@ HNLDecay to a neutrino and a neutral vector meson
VC_HARNESS(hnl_vector) { hnl_two(1); vc_cover("hnl vector"); }
//@ HNLDecay to a charged lepton and a charged meson
VC_HARNESS(hnl_charged) { hnl_two(2); vc_cover("hnl charged"); }
//@ ElectroweakDecay: W and Z bosons of any mass above the threshold of the channel
VC_HARNESS(electroweak) {
  int k = 1 + 2 * vc_choice("channel", 2); ParticleType t[4][3] = {{ParticleType::WPlus, ParticleType::TauPlus, ParticleType::NuTau}, {ParticleType::WMinus, ParticleType::cBar, ParticleType::s}, {ParticleType::Z0, ParticleType::MuMinus, ParticleType::MuPlus}, {ParticleType::Z0, ParticleType::NuE, ParticleType::NuEBar}};
  using namespace siren::utilities::Constants; double a[4] = {tauMass, charmMass, muonMass, 0}, b[4] = {0, strangeMass, muonMass, 0};
#ifdef VC_NATIVE
  double m = a[k] + b[k] + mass("m");
#else
  double m = vc_pos("m"); vc_assume(a[k] + b[k] < m);
#endif
  ElectroweakDecay d(std::set<ParticleType>{t[k][0]}); InteractionRecord r = mother(t[k][0], m); r.signature.secondary_types = {t[k][1], t[k][2]}; CrossSectionDistributionRecord c(r); int seed = 1; d.SampleFinalState(c, rng(seed)); InteractionRecord out = r; c.Finalize(out);
  two_body(r, out, 0, a[k], b[k], true);
  vc_cover("electroweak");
}
