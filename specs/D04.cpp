// SOURCES: projects/dataclasses/private/InteractionRecord.cxx projects/dataclasses/private/InteractionSignature.cxx projects/dataclasses/private/ParticleID.cxx projects/dataclasses/private/Particle.cxx
// REPLACE: siren::dataclasses::ParticleID::GenerateID() => stub_generate_id
// ASSUMES: bounded in the number of secondaries (0 to 3) and of interaction parameters (2); every other quantity is unbounded
#include "common.h"
#include "SIREN/dataclasses/InteractionRecord.h"
using namespace siren::dataclasses;
extern "C" ParticleID stub_generate_id() { static int n = 0; return ParticleID(77, ++n); }
static InteractionRecord filled(int n) {
  InteractionRecord r; r.signature.primary_type = ParticleType::NuE; r.signature.target_type = ParticleType::PPlus;
  static const char* nm[3][8] = {{"a0","a1","a2","a3","a4","a5","a6","a7"},{"b0","b1","b2","b3","b4","b5","b6","b7"},{"c0","c1","c2","c3","c4","c5","c6","c7"}};
  static const ParticleType ty[3] = {ParticleType::MuMinus, ParticleType::Hadrons, ParticleType::NuTau};
  for(int i = 0; i < n; ++i) { r.signature.secondary_types.push_back(ty[i]); r.secondary_ids.push_back(ParticleID(5, 100 + i)); r.secondary_masses.push_back(vc_real(nm[i][0])); r.secondary_momenta.push_back(A4{vc_real(nm[i][1]), vc_real(nm[i][2]), vc_real(nm[i][3]), vc_real(nm[i][4])}); r.secondary_helicities.push_back(vc_real(nm[i][5])); r.secondary_times.push_back(vc_real(nm[i][6])); }
  r.primary_id = ParticleID(5, 1); r.target_id = ParticleID(5, 2); r.primary_initial_position = {vc_real("p0"), vc_real("p1"), vc_real("p2")}; r.primary_initial_time = vc_real("pt"); r.primary_mass = vc_real("pm"); r.primary_momentum = {vc_real("q0"), vc_real("q1"), vc_real("q2"), vc_real("q3")}; r.primary_helicity = vc_real("ph");
  r.target_mass = vc_real("tm"); r.target_helicity = vc_real("th"); r.interaction_vertex = {vc_real("v0"), vc_real("v1"), vc_real("v2")}; r.interaction_time = vc_real("vt"); r.interaction_parameters["bjorken_x"] = vc_real("bx");
  return r;
}
static void same_secondaries(InteractionRecord const & a, InteractionRecord const & b) {
  vc_assert(a.secondary_ids == b.secondary_ids, "secondary ids untouched"); vc_assert(a.secondary_masses.size() == b.secondary_masses.size() && a.secondary_momenta.size() == b.secondary_momenta.size() && a.secondary_helicities.size() == b.secondary_helicities.size() && a.secondary_times.size() == b.secondary_times.size(), "number of secondaries untouched");
  vc_assert(a.signature.secondary_types == b.signature.secondary_types && a.signature.target_type == b.signature.target_type, "signature untouched");
  for(size_t i = 0; i < a.secondary_masses.size(); ++i) { vc_eq(a.secondary_masses[i], b.secondary_masses[i], "secondary masses untouched"); VC_EQA4(a.secondary_momenta[i], b.secondary_momenta[i], "secondary momenta untouched"); vc_eq(a.secondary_helicities[i], b.secondary_helicities[i], "secondary helicities untouched"); vc_eq(a.secondary_times[i], b.secondary_times[i], "secondary times untouched"); }
  vc_eq(a.target_mass, b.target_mass, "target mass untouched"); vc_eq(a.target_helicity, b.target_helicity, "target helicity untouched"); vc_assert(a.target_id == b.target_id, "target id untouched");
}
//@ Finalize writes every primary quantity into its own field and nothing else
VC_HARNESS(primary_finalize) {
  double m = vc_real("mass"), p = vc_pos("p"); vc_assume(m >= 0); A3 d = any_unit("theta","phi"), x = {vc_real("x"), vc_real("y"), vc_real("z")}; double L = vc_pos("L"), E = std::sqrt(p*p+m*m);
  PrimaryDistributionRecord r(ParticleType::NuMu); r.SetMass(m); r.SetEnergy(E); r.SetDirection(d); r.SetInitialPosition(x); r.SetLength(L); double h = vc_real("hel"), t0 = vc_real("t0"), tv = vc_real("tv"); r.SetHelicity(h); r.SetInitialTime(t0); r.SetInteractionTime(tv);
  double par = vc_real("par"), par2 = vc_real("par2"); r.SetInteractionParameter("y", par); bool clash = vc_bool("clash"); if(clash) r.SetInteractionParameter("bjorken_x", par2);
  InteractionRecord before = filled(2), out = before; bool avail = vc_bool("available"); if(avail) r.FinalizeAvailable(out); else r.Finalize(out);
  vc_cover("post");
  vc_assert(out.signature.primary_type == ParticleType::NuMu && out.primary_id == r.GetID(), "identity"); vc_eq(out.primary_mass, m, "mass"); VC_EQA4(out.primary_momentum, (A4{E, p*d[0], p*d[1], p*d[2]}), "momentum"); vc_eq(out.primary_helicity, h, "helicity"); vc_eq(out.primary_initial_time, t0, "initial time"); vc_eq(out.interaction_time, tv, "interaction time");
  VC_EQA3(out.primary_initial_position, x, "initial position"); VC_EQA3(out.interaction_vertex, (A3{x[0]+L*d[0], x[1]+L*d[1], x[2]+L*d[2]}), "vertex"); same_secondaries(out, before);
  if(!avail) { vc_eq(out.interaction_parameters.at("y"), par, "parameter"); vc_eq(out.interaction_parameters.at("bjorken_x"), clash ? par2 : before.interaction_parameters.at("bjorken_x"), "other parameter"); vc_assert(out.interaction_parameters.size() == 2, "no other parameter"); }
}
//@ FinalizeAvailable writes what is known and leaves the rest of the record as it was
VC_HARNESS(primary_available) {
  double m = vc_real("mass"), E = vc_pos("E"); vc_assume(m >= 0); vc_assume(m < E); A3 v = {vc_real("x"), vc_real("y"), vc_real("z")};
  PrimaryDistributionRecord r(ParticleType::NuMu); bool sm = vc_bool("m"), se = vc_bool("e"), sv = vc_bool("v"), si = vc_bool("i"); if(sm) r.SetMass(m); if(se) r.SetEnergy(E); if(sv) r.SetInteractionVertex(v); if(si) r.SetInitialPosition(v);
  InteractionRecord before = filled(1), out = before; r.FinalizeAvailable(out); vc_cover("post");
  vc_eq(out.primary_mass, sm ? m : before.primary_mass, "mass"); vc_eq(out.primary_momentum[0], se ? E : before.primary_momentum[0], "energy"); VC_EQA3(out.interaction_vertex, (sv ? v : before.interaction_vertex), "vertex"); VC_EQA3(out.primary_initial_position, (si ? v : before.primary_initial_position), "initial position");
  for(int i = 1; i < 4; ++i) vc_eq(out.primary_momentum[i], before.primary_momentum[i], "momentum untouched"); same_secondaries(out, before);
}
//@ cross-section record: the target and every secondary land in their own slot; the primary and the signature stay as they were
VC_HARNESS(cross_section_finalize) {
  int n = vc_choice("n", 4); InteractionRecord before = filled(n); CrossSectionDistributionRecord x(before); vc_assert(x.GetSecondaryParticleRecords().size() == (size_t)n, "one record per secondary");
  static const char* nm[3][6] = {{"A0","A1","A2","A3","A4","A5"},{"B0","B1","B2","B3","B4","B5"},{"C0","C1","C2","C3","C4","C5"}}; double M[3], H[3], T[3]; A4 P[3];
  double tm = vc_real("newtm"), th = vc_real("newth"), par = vc_real("par"); x.SetTargetMass(tm); x.SetTargetHelicity(th); x.SetInteractionParameter("y", par);
  for(int k = 0; k < n; ++k) { int i = n - 1 - k; M[i] = vc_real(nm[i][0]); P[i] = {vc_real(nm[i][1]), vc_real(nm[i][2]), vc_real(nm[i][3]), vc_real(nm[i][4])}; H[i] = vc_real(nm[i][5]); T[i] = vc_real("T"); auto & s = x.GetSecondaryParticleRecord(i); vc_assert(s.GetType() == before.signature.secondary_types[i] && s.GetID() == before.secondary_ids[i] && s.secondary_index == (size_t)i, "secondary identity"); s.SetMass(M[i]); s.SetFourMomentum(P[i]); s.SetHelicity(H[i]); s.SetTime(T[i]); }
  InteractionRecord out = before; switch(vc_choice("into", 3)) { case 0: break; case 1: out = InteractionRecord(); out.signature = before.signature; break; default: out.secondary_ids.resize(3); out.secondary_masses.resize(4); out.secondary_momenta.resize(5); out.secondary_helicities.resize(3); out.secondary_times.resize(2); } InteractionRecord mid = out; x.Finalize(out); vc_cover("post");
  vc_assert(out.secondary_ids.size() == (size_t)n && out.secondary_masses.size() == (size_t)n && out.secondary_momenta.size() == (size_t)n && out.secondary_helicities.size() == (size_t)n && out.secondary_times.size() == (size_t)n, "sizes agree with the signature");
  for(int i = 0; i < n; ++i) { vc_assert(out.secondary_ids[i] == before.secondary_ids[i], "secondary id"); vc_eq(out.secondary_masses[i], M[i], "secondary mass"); VC_EQA4(out.secondary_momenta[i], P[i], "secondary momentum"); vc_eq(out.secondary_helicities[i], H[i], "secondary helicity"); vc_eq(out.secondary_times[i], T[i], "secondary time"); }
  vc_eq(out.target_mass, tm, "target mass"); vc_eq(out.target_helicity, th, "target helicity"); vc_assert(out.target_id == before.target_id, "target id"); vc_eq(out.interaction_parameters.at("y"), par, "parameter");
  vc_eq(out.primary_mass, mid.primary_mass, "primary mass untouched"); VC_EQA4(out.primary_momentum, mid.primary_momentum, "primary momentum untouched"); VC_EQA3(out.interaction_vertex, mid.interaction_vertex, "vertex untouched"); vc_eq(out.interaction_time, mid.interaction_time, "time untouched"); vc_eq(out.primary_helicity, mid.primary_helicity, "primary helicity untouched"); vc_assert(out.signature == mid.signature, "signature untouched");
}
//@ every particle of an event has an identifier of its own when none was assigned
VC_HARNESS(cross_section_ids) {
  InteractionRecord rec; rec.signature.primary_type = ParticleType::NuMu; rec.signature.secondary_types = {ParticleType::MuMinus, ParticleType::MuMinus, ParticleType::Hadrons}; rec.primary_id = ParticleID(5, 1);
  CrossSectionDistributionRecord x(rec); for(auto & s : x.GetSecondaryParticleRecords()) s.SetFourMomentum({1, 0, 0, 1}); x.Finalize(rec);
  ParticleID ids[5] = {rec.primary_id, rec.target_id, rec.secondary_ids.at(0), rec.secondary_ids.at(1), rec.secondary_ids.at(2)};
  for(int i = 0; i < 5; ++i) { vc_assert(ids[i].IsSet(), "id set"); for(int j = 0; j < i; ++j) vc_assert(ids[i] != ids[j], "ids differ"); } vc_cover("post");
}
//@ a secondary becomes the primary of its own record with exactly the parent's entry for it, starting at the parent's vertex
VC_HARNESS(secondary_as_primary) {
  InteractionRecord par = filled(3); size_t i = vc_choice("index", 3); vc_assume(dot3({par.secondary_momenta[i][1], par.secondary_momenta[i][2], par.secondary_momenta[i][3]}, {par.secondary_momenta[i][1], par.secondary_momenta[i][2], par.secondary_momenta[i][3]}) > 0);
  SecondaryDistributionRecord r0(par, i); SecondaryDistributionRecord r1 = r0; SecondaryDistributionRecord & r = vc_bool("copy") ? r1 : r0; double L = vc_real("L"); r.SetLength(L); r.SetInteractionTime(vc_real("T")); vc_assert(r.GetSecondaryIndex() == i, "index");
  InteractionRecord out; r.Finalize(out); vc_cover("post"); A4 q = par.secondary_momenta[i]; double p = std::sqrt(q[1]*q[1]+q[2]*q[2]+q[3]*q[3]);
  vc_assert(out.primary_id == par.secondary_ids[i] && out.signature.primary_type == par.signature.secondary_types[i], "identity"); vc_eq(out.primary_mass, par.secondary_masses[i], "mass"); VC_EQA4(out.primary_momentum, q, "momentum"); vc_eq(out.primary_helicity, par.secondary_helicities[i], "helicity"); VC_EQA3(out.primary_initial_position, par.interaction_vertex, "starts at the parent vertex"); vc_eq(out.primary_initial_time, par.secondary_times[i], "time");
  for(int k = 0; k < 3; ++k) vc_eq((out.interaction_vertex[k] - par.interaction_vertex[k]) * p, L * q[1+k], "vertex lies on the flight line");
  VC_EQA3((A3{r.initial_position[0], r.initial_position[1], r.initial_position[2]}), par.interaction_vertex, "start"); vc_eq(r.mass, par.secondary_masses[i], "mass member");
}
//@ a copied secondary record stands on its own after the original is gone
VC_HARNESS(secondary_copy) {
  InteractionRecord par = filled(1); vc_assume(par.secondary_momenta[0][3] > 0); SecondaryDistributionRecord* a = new SecondaryDistributionRecord(par, 0); double L = vc_real("L"); a->SetLength(L); SecondaryDistributionRecord b(*a); delete a;
  vc_eq(b.mass, par.secondary_masses[0], "mass"); VC_EQA4(b.momentum, par.secondary_momenta[0], "momentum"); vc_eq(b.initial_time, par.secondary_times[0], "time"); vc_assert(b.type == par.signature.secondary_types[0] && b.id == par.secondary_ids[0], "identity"); vc_eq(b.GetLength(), L, "length"); vc_cover("post");
}
//@ no length, no vertex: refused
VC_HARNESS(secondary_needs_length) {
  InteractionRecord par = filled(1); SecondaryDistributionRecord r(par, 0); if(vc_bool("time set")) r.SetInteractionTime(vc_real("T")); InteractionRecord out; bool thrown = false; try { r.Finalize(out); } catch(std::runtime_error const &) { thrown = true; } vc_assert(thrown, "refused"); vc_cover("post");
}
