// SOURCES: projects/dataclasses/private/InteractionRecord.cxx projects/dataclasses/private/InteractionSignature.cxx projects/dataclasses/private/ParticleID.cxx projects/dataclasses/private/Particle.cxx
// REPLACE: siren::dataclasses::ParticleID::GenerateID() => stub_generate_id
// ASSUMES: the values set on the record are mutually consistent (they come from one particle); momentum > 0
#include "common.h"
#include "SIREN/dataclasses/InteractionRecord.h"
using namespace siren::dataclasses;
// assumed contract (property D07): every generated identifier is set and new
extern "C" ParticleID stub_generate_id() { static int n = 0; return ParticleID(77, ++n); }
struct Kin { double m, E, T, p; A3 d, mom; };
// one physical particle: any mass, any momentum, any direction
static Kin truth() {
  Kin k; k.m = vc_real("mass"); vc_assume(k.m >= 0); k.p = vc_pos("p"); k.d = any_unit("theta", "phi");
  k.E = std::sqrt(k.p*k.p + k.m*k.m); k.T = k.E - k.m; k.mom = {k.p*k.d[0], k.p*k.d[1], k.p*k.d[2]};
  return k;
}
template<class R> static int set_subset(R & r, Kin const & k) {
  int s = vc_choice("set", 32);
  if(s & 1) r.SetMass(k.m);
  if(s & 2) r.SetEnergy(k.E);
  if(s & 4) r.SetKineticEnergy(k.T);
  if(s & 8) r.SetDirection(k.d);
  if(s & 16) r.SetThreeMomentum(k.mom);
  return s;
}
enum { M = 1, E_ = 2, T_ = 4, D_ = 8, P_ = 16 };
static bool has(int s, int m) { return (s & m) == m; }
template<class R> static void check(R const & r, Kin const & k, int s) {
  bool ok;
  ok = true; try { double x = r.GetMass(); vc_eq(x, k.m, "mass"); } catch(std::runtime_error const &) { ok = false; }
  vc_assert(ok || !(has(s,M) || has(s,E_|P_) || has(s,E_|T_)), "mass is derivable");
  ok = true; try { double x = r.GetEnergy(); vc_eq(x, k.E, "energy"); } catch(std::runtime_error const &) { ok = false; }
  vc_assert(ok || !(has(s,E_) || has(s,M|P_) || has(s,M|T_)), "energy is derivable");
  ok = true; try { double x = r.GetKineticEnergy(); vc_eq(x, k.T, "kinetic energy"); } catch(std::runtime_error const &) { ok = false; }
  vc_assert(ok || !(has(s,T_) || has(s,M|E_) || has(s,M|P_)), "kinetic energy is derivable");
  ok = true; try { A3 x = r.GetDirection(); VC_EQA3(x, k.d, "direction"); } catch(std::runtime_error const &) { ok = false; }
  vc_assert(ok || !(has(s,D_) || has(s,P_)), "direction is derivable");
  ok = true; try { A3 x = r.GetThreeMomentum(); VC_EQA3(x, k.mom, "momentum"); } catch(std::runtime_error const &) { ok = false; }
  vc_assert(ok || !(has(s,P_) || has(s,E_|M|D_) || has(s,M|T_|D_)), "momentum is derivable");
  ok = true; try { A4 x = r.GetFourMomentum(); vc_eq(x[0], k.E, "four-momentum [E]"); vc_eq(x[1], k.mom[0], "four-momentum [x]"); vc_eq(x[2], k.mom[1], "four-momentum [y]"); vc_eq(x[3], k.mom[2], "four-momentum [z]"); } catch(std::runtime_error const &) { ok = false; }
  vc_assert(ok || !(has(s,P_|E_) || has(s,P_|M) || has(s,E_|M|D_) || has(s,M|T_|D_)), "four-momentum is derivable");
}
//@ primary record: whichever of mass, energy, kinetic energy, direction, momentum are set (consistently), every getter returns the particle's value or refuses with runtime_error, in any order of calls
VC_HARNESS(primary_kinematics) {
  Kin k = truth(); PrimaryDistributionRecord r(ParticleType::NuMu); int s = set_subset(r, k);
  check(r, k, s); vc_cover("post");
}
//@ the answers do not depend on which getter ran before
VC_HARNESS(primary_order) {
  Kin k = truth(); PrimaryDistributionRecord r(ParticleType::NuMu); int s = set_subset(r, k);
  try { switch(vc_choice("first", 4)) { case 0: r.GetFourMomentum(); break; case 1: r.GetDirection(); r.GetKineticEnergy(); break; case 2: r.GetThreeMomentum(); r.GetMass(); break; default: r.GetParticle(); } } catch(std::runtime_error const &) {}
  check(r, k, s); vc_cover("post");
}
//@ primary record: the four-momentum is (E, p) of the particle or refused
VC_HARNESS(primary_four_momentum) {
  Kin k = truth(); PrimaryDistributionRecord r(ParticleType::NuMu); r.SetFourMomentum({k.E, k.mom[0], k.mom[1], k.mom[2]});
  check(r, k, E_|P_); Particle q = r.GetParticle(); vc_eq(q.mass, k.m, "particle mass"); VC_EQA4(q.momentum, (A4{k.E, k.mom[0], k.mom[1], k.mom[2]}), "particle momentum"); vc_cover("post");
}
static InteractionRecord parent() {
  InteractionRecord rec; rec.signature.primary_type = ParticleType::NuMu; rec.signature.target_type = ParticleType::PPlus; rec.signature.secondary_types = {ParticleType::MuMinus, ParticleType::Hadrons};
  rec.interaction_vertex = {vc_real("vx"), vc_real("vy"), vc_real("vz")}; rec.interaction_time = vc_real("vt"); return rec;
}
//@ secondary record: the same contract
VC_HARNESS(secondary_kinematics) {
  InteractionRecord rec = parent(); Kin k = truth(); SecondaryParticleRecord r(rec, vc_choice("index", 2)); int s = set_subset(r, k);
  check(r, k, s); vc_cover("post");
}
//@ secondary record: the answers do not depend on which getter ran before
VC_HARNESS(secondary_order) {
  InteractionRecord rec = parent(); Kin k = truth(); SecondaryParticleRecord r(rec, 1); int s = set_subset(r, k);
  try { switch(vc_choice("first", 4)) { case 0: r.GetFourMomentum(); break; case 1: r.GetDirection(); r.GetKineticEnergy(); break; case 2: r.GetThreeMomentum(); r.GetMass(); break; default: r.GetParticle(); } } catch(std::runtime_error const &) {}
  check(r, k, s); vc_cover("post");
}
//@ a record takes a particle of its own identity and type only, and then reports exactly that particle
VC_HARNESS(particle_round_trip) {
  PrimaryDistributionRecord r(ParticleType::NuMu); Kin k = truth(); Particle q; q.id = r.GetID(); q.type = ParticleType::NuMu; q.mass = k.m; q.momentum = {k.E, k.mom[0], k.mom[1], k.mom[2]};
  q.position = {vc_real("x"), vc_real("y"), vc_real("z")}; q.length = vc_real("len"); q.helicity = vc_real("hel");
  r.SetParticle(q); Particle o = r.GetParticle();
  vc_assert(o.id == q.id && o.type == q.type, "identity"); vc_eq(o.mass, q.mass, "mass"); VC_EQA4(o.momentum, q.momentum, "momentum"); VC_EQA3(o.position, q.position, "position"); vc_eq(o.length, q.length, "length"); vc_eq(o.helicity, q.helicity, "helicity");
  Particle w = q; if(vc_bool("wrong id")) w.id = ParticleID::GenerateID(); else w.type = ParticleType::NuE;
  bool thrown = false; try { r.SetParticle(w); } catch(std::runtime_error const &) { thrown = true; } vc_assert(thrown, "foreign particle refused");
  vc_cover("post");
}
//@ secondary record: takes a particle of its own type only, and then reports exactly that particle
VC_HARNESS(secondary_particle_round_trip) {
  InteractionRecord rec = parent(); SecondaryParticleRecord r(rec, 0); Kin k = truth(); Particle q; q.id = r.GetID(); q.type = ParticleType::MuMinus; q.mass = k.m; q.momentum = {k.E, k.mom[0], k.mom[1], k.mom[2]}; q.helicity = vc_real("hel");
  r.SetParticle(q); Particle o = r.GetParticle();
  vc_assert(o.id == q.id && o.type == q.type, "identity"); vc_eq(o.mass, q.mass, "mass"); VC_EQA4(o.momentum, q.momentum, "momentum"); VC_EQA3(o.position, rec.interaction_vertex, "position is the vertex"); vc_eq(o.helicity, q.helicity, "helicity");
  Particle w = q; if(vc_bool("wrong id")) w.id = ParticleID::GenerateID(); else w.type = ParticleType::NuE;
  bool thrown = false; try { r.SetParticle(w); } catch(std::runtime_error const &) { thrown = true; } vc_assert(thrown, "foreign particle refused");
  vc_cover("post");
}
//@ an energy and momentum that rounding has pushed off the mass shell still give a finite, non-negative mass
VC_HARNESS(mass_finite) {
  PrimaryDistributionRecord r(ParticleType::NuMu); double e = vc_pos("E"); A3 p = {vc_real("px"), vc_real("py"), vc_real("pz")};
  r.SetEnergy(e); r.SetThreeMomentum(p); double m = r.GetMass(); vc_assert(vc_finite(m), "finite"); vc_assert(m >= 0, "not negative");
  if(e*e >= dot3(p, p)) vc_eq(m*m, e*e - dot3(p, p), "invariant mass");
  InteractionRecord rec = parent(); SecondaryParticleRecord s(rec, 0); s.SetEnergy(e); s.SetThreeMomentum(p); double n = s.GetMass(); vc_assert(vc_finite(n), "finite (secondary)"); vc_assert(n >= 0, "not negative (secondary)");
  vc_cover("post");
}
//@ values derived earlier never survive a later change of the quantities they were derived from
VC_HARNESS(primary_history) {
  Kin k0; k0.m = vc_real("mass0"); vc_assume(k0.m >= 0); k0.p = vc_pos("p0"); k0.d = any_unit("theta0", "phi0"); k0.E = std::sqrt(k0.p*k0.p + k0.m*k0.m); k0.T = k0.E - k0.m; k0.mom = {k0.p*k0.d[0], k0.p*k0.d[1], k0.p*k0.d[2]};
  Kin k = truth(); PrimaryDistributionRecord r(ParticleType::NuMu); int s = set_subset(r, k0); r.GetParticle(); try { r.GetDirection(); r.GetKineticEnergy(); } catch(std::runtime_error const &) {} try { r.GetFourMomentum(); } catch(std::runtime_error const &) {}
  if(s & 1) r.SetMass(k.m); if(s & 2) r.SetEnergy(k.E); if(s & 4) r.SetKineticEnergy(k.T); if(s & 8) r.SetDirection(k.d); if(s & 16) r.SetThreeMomentum(k.mom);
  check(r, k, s); vc_cover("post");
}
//@ secondary record: values derived earlier never survive a later change
VC_HARNESS(secondary_history) {
  InteractionRecord rec = parent();
  Kin k0; k0.m = vc_real("mass0"); vc_assume(k0.m >= 0); k0.p = vc_pos("p0"); k0.d = any_unit("theta0", "phi0"); k0.E = std::sqrt(k0.p*k0.p + k0.m*k0.m); k0.T = k0.E - k0.m; k0.mom = {k0.p*k0.d[0], k0.p*k0.d[1], k0.p*k0.d[2]};
  Kin k = truth(); SecondaryParticleRecord r(rec, 0); int s = set_subset(r, k0); r.GetParticle(); try { r.GetDirection(); r.GetKineticEnergy(); } catch(std::runtime_error const &) {} try { r.GetFourMomentum(); } catch(std::runtime_error const &) {}
  if(s & 1) r.SetMass(k.m); if(s & 2) r.SetEnergy(k.E); if(s & 4) r.SetKineticEnergy(k.T); if(s & 8) r.SetDirection(k.d); if(s & 16) r.SetThreeMomentum(k.mom);
  check(r, k, s); vc_cover("post");
}
