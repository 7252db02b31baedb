// SOURCES: projects/dataclasses/private/InteractionRecord.cxx projects/dataclasses/private/InteractionSignature.cxx projects/dataclasses/private/ParticleID.cxx projects/dataclasses/private/Particle.cxx
// REPLACE: siren::dataclasses::ParticleID::GenerateID() => stub_generate_id
#include "common.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/utilities/Constants.h"
using namespace siren::dataclasses;
extern "C" ParticleID stub_generate_id() { static int n = 0; return ParticleID(77, ++n); }
static const double C = siren::utilities::Constants::c;
//@ primary: the interaction happens exactly one flight time (length / velocity) after the initial time, never faster than light
VC_HARNESS(primary_time) {
  double m = vc_real("mass"), p = vc_pos("p"), t0 = vc_real("t0"), L = vc_pos("L"); vc_assume(m >= 0); A3 d = any_unit("theta", "phi"), x = {vc_real("x"), vc_real("y"), vc_real("z")};
  double E = std::sqrt(p*p + m*m); A3 v = {x[0]+L*d[0], x[1]+L*d[1], x[2]+L*d[2]};
  PrimaryDistributionRecord r(ParticleType::NuMu); r.SetInitialTime(t0); r.SetInitialPosition(x);
  switch(vc_choice("how", 4)) {
    case 0: r.SetMass(m); r.SetEnergy(E); r.SetDirection(d); r.SetLength(L); break;
    case 1: r.SetMass(m); r.SetEnergy(E); r.SetInteractionVertex(v); break;
    case 2: r.SetThreeMomentum({p*d[0], p*d[1], p*d[2]}); r.SetMass(m); r.SetInteractionVertex(v); break;
    default: r.SetFourMomentum({E, p*d[0], p*d[1], p*d[2]}); r.SetInteractionVertex(v); break;
  }
  vc_cover("post");
  double t = r.GetInteractionTime();
  vc_eq((t - t0) * p * C, L * E, "flight time"); vc_le((t0 + L / C), t, "not faster than light");
  InteractionRecord out; r.SetDirection(d); if(vc_bool("available")) r.FinalizeAvailable(out); else r.Finalize(out);
  vc_eq((out.interaction_time - t0) * p * C, L * E, "flight time in the final record"); vc_eq(out.primary_initial_time, t0, "initial time in the final record");
}
//@ no path, or a particle at rest: the interaction time is the initial time; an explicit time always wins
VC_HARNESS(primary_time_degenerate) {
  double m = vc_real("mass"), t0 = vc_real("t0"); vc_assume(m >= 0); A3 x = {vc_real("x"), vc_real("y"), vc_real("z")}, v = {vc_real("vx"), vc_real("vy"), vc_real("vz")}; double T = vc_real("T"); vc_assume(T >= 0);
  PrimaryDistributionRecord r(ParticleType::NuMu); r.SetInitialTime(t0); r.SetMass(m); r.SetInitialPosition(x);
  if(vc_bool("at rest")) { r.SetEnergy(m); r.SetInteractionVertex(v); } else { r.SetEnergy(m + T); r.SetInteractionVertex(x); }
  vc_eq(r.GetInteractionTime(), t0, "no flight, no delay"); double w = vc_real("explicit"); r.SetInteractionTime(w); vc_eq(r.GetInteractionTime(), w, "explicit time wins"); r.SetInitialTime(t0 + 1); vc_eq(r.GetInteractionTime(), w, "explicit time stays");
  vc_cover("post");
}
//@ time is monotone: a longer path never gives an earlier interaction
VC_HARNESS(primary_time_monotone) {
  double m = vc_real("mass"), p = vc_pos("p"), t0 = vc_real("t0"), L = vc_pos("L"), L2 = vc_pos("L2"); vc_assume(m >= 0); vc_assume(L <= L2); double E = std::sqrt(p*p + m*m);
  PrimaryDistributionRecord a(ParticleType::NuMu), b(ParticleType::NuMu); a.SetInitialTime(t0); b.SetInitialTime(t0); a.SetMass(m); b.SetMass(m); a.SetEnergy(E); b.SetEnergy(E); a.SetInitialPosition({0,0,0}); b.SetInitialPosition({0,0,0});
  a.SetInteractionVertex({0,0,L}); b.SetInteractionVertex({0,0,L2});
  double ta = a.GetInteractionTime(), tb = b.GetInteractionTime(); vc_le(t0, ta, "not before the start"); vc_le(ta, tb, "monotone"); vc_cover("post");
}
static InteractionRecord parent(int n) {
  InteractionRecord rec; rec.signature.primary_type = ParticleType::NuMu; rec.signature.target_type = ParticleType::PPlus; rec.interaction_time = vc_real("vt");
  for(int i = 0; i < n; ++i) rec.signature.secondary_types.push_back(i == 0 ? ParticleType::MuMinus : ParticleType::Hadrons);
  return rec;
}
//@ secondaries are born at the vertex time unless their own time was set; an overridden vertex time moves those that follow it; the final record says the same as the getters
VC_HARNESS(secondary_times) {
  int n = 2; InteractionRecord rec = parent(n); CrossSectionDistributionRecord x(rec); double own = vc_real("own"), over = vc_real("over");
  bool set0 = vc_bool("set0"), ov = vc_bool("override"), late = vc_bool("late");
  for(int i = 0; i < n; ++i) x.GetSecondaryParticleRecord(i).SetFourMomentum({vc_pos("E"), 0, 0, 0});
  if(set0 && !late) x.GetSecondaryParticleRecord(0).SetTime(own);
  if(ov) x.SetInteractionTime(over);
  if(set0 && late) x.GetSecondaryParticleRecord(0).SetTime(own);
  double vt = ov ? over : rec.interaction_time;
  vc_eq(x.GetInteractionTime(), vt, "vertex time"); vc_eq(x.GetSecondaryParticleRecord(0).GetTime(), set0 ? own : vt, "time of the first secondary"); vc_eq(x.GetSecondaryParticleRecord(1).GetTime(), vt, "time of the second secondary");
  InteractionRecord out = rec; x.Finalize(out);
  vc_eq(out.interaction_time, vt, "final vertex time"); vc_assert(out.secondary_times.size() == (size_t)n, "one time per secondary"); vc_eq(out.secondary_times[0], set0 ? own : vt, "final time of the first secondary"); vc_eq(out.secondary_times[1], vt, "final time of the second secondary");
  vc_cover("post");
}
//@ a secondary that travels: starts at its production time (the vertex time for records without one) and interacts one flight time later
VC_HARNESS(secondary_flight) {
  InteractionRecord rec = parent(2); double m = vc_real("mass"), p = vc_pos("p"), L = vc_real("L"); vc_assume(m >= 0); vc_assume(L >= 0); A3 d = any_unit("theta", "phi"); double E = std::sqrt(p*p + m*m);
  size_t i = vc_choice("index", 2); rec.interaction_vertex = {vc_real("x"), vc_real("y"), vc_real("z")};
  rec.secondary_ids = {ParticleID(1,1), ParticleID(1,2)}; rec.secondary_masses = {0, 0}; rec.secondary_momenta = {A4{7,0,0,7}, A4{7,0,0,7}}; rec.secondary_helicities = {0, 0}; rec.secondary_masses[i] = m; rec.secondary_momenta[i] = {E, p*d[0], p*d[1], p*d[2]};
  bool old = vc_bool("record without times"); double st = vc_real("st"); if(!old) { rec.secondary_times = {0, 0}; rec.secondary_times[i] = st; }
  double t0 = old ? rec.interaction_time : st;
  SecondaryDistributionRecord r(rec, i); vc_eq(r.initial_time, t0, "production time");
  r.SetLength(L); double t = r.GetInteractionTime(); vc_eq((t - t0) * p * C, L * E, "flight time"); vc_le(t0 + L / C, t, "not faster than light");
  InteractionRecord out; r.Finalize(out); vc_eq((out.interaction_time - t0) * p * C, L * E, "flight time in the final record"); vc_eq(out.primary_initial_time, t0, "production time in the final record");
  double w = vc_real("explicit"); r.SetInteractionTime(w); vc_eq(r.GetInteractionTime(), w, "explicit time wins"); r.Finalize(out); vc_eq(out.interaction_time, w, "explicit time is final");
  vc_cover("post");
}
//@ a secondary at rest interacts where and when it was produced
VC_HARNESS(secondary_at_rest) {
  InteractionRecord rec = parent(1); double m = vc_pos("mass"); rec.interaction_vertex = {vc_real("x"), vc_real("y"), vc_real("z")};
  rec.secondary_ids = {ParticleID(1,1)}; rec.secondary_masses = {m}; rec.secondary_momenta = {A4{m,0,0,0}}; rec.secondary_helicities = {0}; rec.secondary_times = {vc_real("st")};
  SecondaryDistributionRecord r(rec, 0); r.SetLength(0); InteractionRecord out; r.Finalize(out); VC_EQA3(out.interaction_vertex, rec.interaction_vertex, "vertex"); vc_eq(out.interaction_time, rec.secondary_times[0], "time");
  vc_cover("post");
}
