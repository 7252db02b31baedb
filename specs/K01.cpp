// Final states of two-body decays: four-momentum is conserved, products are on their mass shell, angles follow the stated law.
// SOURCES: projects/interactions/private/HNLDipoleDecay.cxx projects/interactions/private/Decay.cxx projects/dataclasses/private/InteractionRecord.cxx projects/dataclasses/private/InteractionSignature.cxx projects/dataclasses/private/Particle.cxx projects/dataclasses/private/ParticleID.cxx projects/dataclasses/private/ParticleType.cxx projects/math/private/Vector3D.cxx projects/utilities/private/Random.cxx vendor/rk/rk/rk.cc vendor/rk/rk/geom3.cc
// IRFLAGS: -fno-inline
// REPLACE: siren::utilities::SIREN_random::Uniform(double, double) => vcs_uniform
// REPLACE: ~geom3::rotationBetween<geom3::UnitVector3, geom3::UnitVector3> => vcs_between
// REPLACE: geom3::Rotation3::Rotation3(geom3::UnitVector3 const&, double) => vcs_axisrot
// REPLACE: rk::P4::rotate(geom3::Rotation3 const&) => vcs_rotate
// REPLACE: rk::P4::boost(rk::Boost const&) => vcs_boost
// ASSUMES: the contracts of rotations and boosts of the four-vector library are those proved in K01_rk
#include "common.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/interactions/HNLDipoleDecay.h"
#include "SIREN/utilities/Random.h"
#include "SIREN/utilities/Constants.h"
#include "kin.h"
using namespace siren::interactions; using siren::dataclasses::InteractionRecord; using siren::dataclasses::CrossSectionDistributionRecord; using siren::dataclasses::ParticleType; using siren::utilities::SIREN_random;
#include "kindraw.h"
#ifndef VC_NATIVE
//@ lemma: masses, momenta and the energy in the rest frame determine the second product
VC_HARNESS(lemma_rest) { rest_lemma(true, any("P0", "P1", "P2", "P3"), any("a0", "a1", "a2", "a3"), vc_real("M"), vc_real("mx"), vc_real("ml"), vc_real("e")); vc_cover("lemma rest"); }
//@ lemma: the momentum and the mass determine the energy
VC_HARNESS(lemma_shell) { shell_lemma(true, any("P0", "P1", "P2", "P3"), any("a0", "a1", "a2", "a3"), any("b0", "b1", "b2", "b3"), vc_real("ml")); vc_cover("lemma shell"); }
#endif
//@ HNLDipoleDecay: photon and neutrino are massless and carry the four-momentum of the HNL
VC_HARNESS(dipole) {
  double m = mass("m"); bool bar = vc_bool("bar"), dirac = vc_bool("dirac"), swap = vc_bool("swap"); HNLDipoleDecay d(m, 1e-7, dirac ? HNLDipoleDecay::ChiralNature::Dirac : HNLDipoleDecay::ChiralNature::Majorana);
  InteractionRecord r = mother(bar ? ParticleType::N4Bar : ParticleType::N4, m); ParticleType n = bar ? ParticleType::NuMuBar : ParticleType::NuMu; if(swap) r.signature.secondary_types = {n, ParticleType::Gamma}; else r.signature.secondary_types = {ParticleType::Gamma, n};
  CrossSectionDistributionRecord c(r); int seed = 1; d.SampleFinalState(c, rng(seed)); InteractionRecord out = r; c.Finalize(out);
  two_body(r, out, swap ? 1 : 0, 0, 0); auto const & P = r.primary_momentum; double G = out.secondary_momenta[swap ? 1 : 0][0];
  double p = std::sqrt(P[1] * P[1] + P[2] * P[2] + P[3] * P[3]), alpha = (r.primary_helicity > 0) == bar ? 1 : -1; if(!dirac) alpha = 0;
#ifndef VC_NATIVE
  vc_assert(follows(dipole_law, kin_b[0].par, m / 2, alpha, seed), "component along the line of flight");
#endif
  vc_assert(follows(dipole_law, 2 * G - P[0], p, alpha, seed), "the cosine of the photon in the rest frame follows 1 + alpha cos");
  vc_cover("dipole");
}
