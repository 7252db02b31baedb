// Collections of interactions, totals over final states, decay lengths.
// SOURCES: projects/interactions/private/InteractionCollection.cxx projects/interactions/private/CrossSection.cxx projects/interactions/private/Decay.cxx projects/dataclasses/private/InteractionRecord.cxx projects/dataclasses/private/InteractionSignature.cxx projects/dataclasses/private/Particle.cxx projects/dataclasses/private/ParticleID.cxx projects/dataclasses/private/ParticleType.cxx projects/math/private/Vector3D.cxx vendor/rk/rk/rk.cc vendor/rk/rk/geom3.cc
// ASSUMES: cross sections and decays are used through their interface: any class, any targets out of three, any totals
#include "common.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/dataclasses/InteractionSignature.h"
#include "SIREN/interactions/Interaction.h"
#include "SIREN/interactions/CrossSection.h"
#include "SIREN/interactions/Decay.h"
#include "SIREN/interactions/InteractionCollection.h"
#include "SIREN/utilities/Constants.h"
#include <map>
using namespace siren::interactions; using siren::dataclasses::InteractionRecord; using siren::dataclasses::CrossSectionDistributionRecord; using siren::dataclasses::InteractionSignature; using siren::dataclasses::ParticleType; using siren::utilities::SIREN_random;
static const ParticleType T[3] = {ParticleType::PPlus, ParticleType::Neutron, ParticleType::HNucleus};
static const ParticleType OUT[3] = {ParticleType::EMinus, ParticleType::MuMinus, ParticleType::TauMinus};
// any cross section: id identifies it, mask says which targets it has; totals are arbitrary functions of (id, target, final state, energy)
struct XS : public CrossSection {
  int id, mask, finals; bool strange;
  XS(int id, int mask, int finals = 1) : id(id), mask(mask), finals(finals), strange(false) {}
  bool equal(CrossSection const & o) const override { auto x = dynamic_cast<XS const *>(&o); return x && x->id == id; }
  double TotalCrossSection(InteractionRecord const & r) const override {
    int t = 0; while(t < 3 && r.signature.target_type != T[t]) ++t;
    int o = 0; if(r.signature.secondary_types.size() == 1) while(o < 3 && r.signature.secondary_types[0] != OUT[o]) ++o;
    return value(t, o, r.primary_momentum[0]);
  }
  double value(int t, int o, double E) const { double f = vc_fun1("xs", E + 1000 * id + 100 * t + 10 * o); return 1 + f * f; }
  double DifferentialCrossSection(InteractionRecord const &) const override { return 0; }
  double InteractionThreshold(InteractionRecord const &) const override { return 0; }
  void SampleFinalState(CrossSectionDistributionRecord &, std::shared_ptr<SIREN_random>) const override {}
  std::vector<ParticleType> GetPossibleTargets() const override { std::vector<ParticleType> v; for(int k = 2; k >= 0; --k) if(mask >> k & 1) v.push_back(T[k]); return v; }
  std::vector<ParticleType> GetPossibleTargetsFromPrimary(ParticleType) const override { return GetPossibleTargets(); }
  std::vector<ParticleType> GetPossiblePrimaries() const override { return {ParticleType::NuMu}; }
  std::vector<InteractionSignature> GetPossibleSignatures() const override { return {}; }
  std::vector<InteractionSignature> GetPossibleSignaturesFromParents(ParticleType p, ParticleType t) const override {
    std::vector<InteractionSignature> v; for(int o = 0; o < finals; ++o) { InteractionSignature s; s.primary_type = p; s.target_type = t; s.secondary_types = {OUT[o]}; v.push_back(s); } return v;
  }
  double FinalStateProbability(InteractionRecord const &) const override { return 1; }
  std::vector<std::string> DensityVariables() const override { return {}; }
};
struct DK : public Decay {
  int id; double width; DK(int id, double width) : id(id), width(width) {}
  bool equal(Decay const & o) const override { auto x = dynamic_cast<DK const *>(&o); return x && x->id == id; }
  double TotalDecayWidthAllFinalStates(InteractionRecord const &) const override { return width; }
  double TotalDecayWidth(ParticleType) const override { return width; }
  double TotalDecayWidth(InteractionRecord const & r) const override { return r.signature.secondary_types.empty() ? width : width / 2; }
  double DifferentialDecayWidth(InteractionRecord const &) const override { return 0; }
  void SampleFinalState(CrossSectionDistributionRecord &, std::shared_ptr<SIREN_random>) const override {}
  std::vector<InteractionSignature> GetPossibleSignatures() const override { return {}; }
  std::vector<InteractionSignature> GetPossibleSignaturesFromParent(ParticleType) const override { return {}; }
  double FinalStateProbability(InteractionRecord const &) const override { return 1; }
  std::vector<std::string> DensityVariables() const override { return {}; }
};
static double width(const char* n) {
#ifdef VC_NATIVE
  double x = vc_pos(n); return 1e-3 + x / (1 + x);
#else
  return vc_pos(n);
#endif
}
//@ InteractionCollection: the cross sections of a target are exactly those that list it, in their order; totals per target are the sums over them for a record with that target
VC_HARNESS(by_target) {
  int n = vc_choice("n", 4); std::vector<std::shared_ptr<CrossSection>> v; std::vector<XS*> raw; static const char* nm[3] = {"m0", "m1", "m2"};
  for(int k = 0; k < n; ++k) { auto x = std::make_shared<XS>(k + 1, vc_choice(nm[k], 8)); raw.push_back(x.get()); v.push_back(x); }
  InteractionCollection c(ParticleType::NuMu, v); double E = vc_pos("E");
#ifdef VC_NATIVE
  E = std::fmod(E, 5);
#endif
  vc_assert(c.GetPrimaryType() == ParticleType::NuMu && c.HasCrossSections() == (n > 0) && !c.HasDecays() && c.GetCrossSections() == v, "what was given is kept");
  InteractionRecord r; r.signature.primary_type = ParticleType::NuMu; r.signature.target_type = T[2]; r.signature.secondary_types = {OUT[1]}; r.primary_momentum = {E, 0, 0, E};
  std::map<ParticleType, double> tot = c.TotalCrossSectionByTarget(r), all = c.TotalCrossSectionByTargetAllFinalStates(r);
  for(int t = 0; t < 3; ++t) {
    std::vector<std::shared_ptr<CrossSection>> want; double s = 0, a = 0;
    for(int k = 0; k < n; ++k) if(raw[k]->mask >> t & 1) { want.push_back(v[k]); s += raw[k]->value(t, 1, E); a += raw[k]->value(t, 0, E); }
    vc_assert(c.GetCrossSectionsForTarget(T[t]) == want, "the cross sections of a target");
    vc_assert((c.TargetTypes().count(T[t]) == 1) == !want.empty(), "the targets are those of the cross sections");
    vc_assert((tot.count(T[t]) == 1) == !want.empty() && (all.count(T[t]) == 1) == !want.empty(), "one total per target");
    if(tot.count(T[t])) vc_eq(tot[T[t]], s, "the total is the sum over the cross sections of this target");
    if(all.count(T[t])) vc_eq(all[T[t]], a, "the total over final states is the sum over the cross sections of this target");
  }
  vc_assert(c.GetCrossSectionsForTarget(ParticleType::O16Nucleus).empty(), "no cross section for another target");
  vc_assert(r.signature.target_type == T[2], "the record is not changed");
  vc_cover("by target");
}
//@ CrossSection: the total over all final states is the sum over the signatures of the given primary and target
VC_HARNESS(all_final_states) {
  int n = vc_choice("n", 4), t = vc_choice("t", 3); XS x(vc_choice("id", 2), 7, n); double E = vc_pos("E");
#ifdef VC_NATIVE
  E = std::fmod(E, 5);
#endif
  InteractionRecord r; r.signature.primary_type = ParticleType::NuMu; r.signature.target_type = T[t]; r.primary_momentum = {E, 0, 0, E};
  double s = 0; for(int o = 0; o < n; ++o) s += x.value(t, o, E);
  vc_eq(x.TotalCrossSectionAllFinalStates(r), s, "the sum over the final states");
  vc_assert(r.signature.secondary_types.empty() && r.signature.target_type == T[t], "the record is not changed");
  vc_cover("all final states");
}
static InteractionRecord moving(double & p, double & m) {
  InteractionRecord r; m = width("m"); double x = vc_real("px"), y = vc_real("py"), z = vc_real("pz"); r.signature.primary_type = ParticleType::N4;
#ifdef VC_NATIVE
  x = std::fmod(x, 10); y = std::fmod(y, 10); z = std::fmod(z, 10); vc_assume(x * x + y * y + z * z > 1e-2);
#endif
  p = std::sqrt(x * x + y * y + z * z); vc_assume(p > 0); r.primary_mass = m; r.primary_momentum = {std::sqrt(p * p + m * m), x, y, z}; return r;
}
//@ Decay: the decay length is beta gamma hbar c over the width, for the given and for all final states
VC_HARNESS(decay_length) {
  double p, m, g = width("g"); InteractionRecord r = moving(p, m); DK d(1, g); double hc = siren::utilities::Constants::hbarc;
  vc_eq(d.TotalDecayLengthAllFinalStates(r) * g * m, p * hc, "decay length for all final states"); vc_eq(d.TotalDecayLength(r) * g * m, p * hc, "decay length");
  r.signature.secondary_types = {OUT[0]}; vc_eq(d.TotalDecayLength(r) * g * m, 2 * p * hc, "decay length into one final state");
  vc_cover("decay length");
}
//@ InteractionCollection: total width is the sum of the widths, the inverse decay length the sum of the inverse lengths; without decays nothing decays
VC_HARNESS(decays) {
  double p, m; InteractionRecord r = moving(p, m); double hc = siren::utilities::Constants::hbarc;
  int n = vc_choice("n", 4); std::vector<std::shared_ptr<Decay>> v; double s = 0; static const char* nm[3] = {"g0", "g1", "g2"};
  for(int k = 0; k < n; ++k) { double g = width(nm[k]); s += g; v.push_back(std::make_shared<DK>(k, g)); }
  InteractionCollection c(ParticleType::N4, v);
  vc_assert(c.HasDecays() == (n > 0) && !c.HasCrossSections() && c.GetDecays() == v, "what was given is kept");
  vc_eq(c.TotalDecayWidthAllFinalStates(r), s, "the total width is the sum of the widths");
  double L = c.TotalDecayLengthAllFinalStates(r);
  if(n == 0) vc_assert(!vc_finite(L), "without decays the length is infinite"); else vc_eq(L * s * m, p * hc, "the total length is that of the total width");
  vc_assert(c.MatchesPrimary(r), "its primary matches"); c.SetPrimaryType(ParticleType::NuE); vc_assert(!c.MatchesPrimary(r) && c.GetPrimaryType() == ParticleType::NuE, "another primary does not match");
  vc_cover("decays");
}
struct Neither : public Interaction {};
//@ InteractionCollection from a mixed list: cross sections and decays are told apart, in order; anything else is refused
VC_HARNESS(mixed) {
  int n = vc_choice("n", 4); static const char* nm[3] = {"k0", "k1", "k2"}; bool bad = false;
  std::vector<std::shared_ptr<Interaction>> v; std::vector<std::shared_ptr<CrossSection>> xs; std::vector<std::shared_ptr<Decay>> ds;
  for(int k = 0; k < n; ++k) {
    int w = vc_choice(nm[k], 3);
    if(w == 0) { auto x = std::make_shared<XS>(k, 1 + k); xs.push_back(x); v.push_back(x); }
    else if(w == 1) { auto d = std::make_shared<DK>(k, 1 + k); ds.push_back(d); v.push_back(d); }
    else { bad = true; v.push_back(std::make_shared<Neither>()); }
  }
  bool thrown = false; 
  try {
    InteractionCollection c(ParticleType::NuMu, v), d(ParticleType::NuMu, xs, ds), e(ParticleType::NuE, xs, ds);
    vc_assert(c.GetCrossSections() == xs && c.GetDecays() == ds, "cross sections and decays in order");
    vc_assert(c == d && d == c, "collections of the same interactions are equal"); vc_assert(!(c == e), "collections for other primaries differ");
    for(int t = 0; t < 3; ++t) vc_assert(c.GetCrossSectionsForTarget(T[t]) == d.GetCrossSectionsForTarget(T[t]), "the same cross sections for each target");
    if(xs.size()) { xs.pop_back(); InteractionCollection f(ParticleType::NuMu, xs, ds); vc_assert(!(c == f), "collections of other interactions differ"); }
  } catch(std::runtime_error const &) { thrown = true; }
  vc_assert(thrown == bad, "anything else is refused");
  vc_cover("mixed");
}
//@ equality of interactions asks the class; an interaction equals itself
VC_HARNESS(same) {
  int a = vc_choice("a", 3), b = vc_choice("b", 3); XS x(a, 1), y(b, 2); DK d(a, 1), e(b, 2); CrossSection const & X = x; CrossSection const & Y = y; Decay const & D = d; Decay const & F = e;
  vc_assert((X == Y) == (a == b) && (D == F) == (a == b), "equal when their class says so"); vc_assert(X == X && D == D, "equal to itself"); vc_cover("same");
}
//@ the time of an interaction or decay is the flight time unless a class samples its own
VC_HARNESS(times) {
  InteractionRecord r; r.signature.primary_type = ParticleType::N4; r.signature.target_type = T[0]; r.signature.secondary_types = {OUT[0]}; r.interaction_time = vc_real("t"); r.primary_momentum = {1, 0, 0, 1};
  CrossSectionDistributionRecord c(r); XS x(1, 1); DK d(1, 1);
  vc_eq(x.SampleInteractionTime(c, nullptr), r.interaction_time, "the flight time"); vc_eq(d.SampleDecayTime(c, nullptr), r.interaction_time, "the flight time"); vc_cover("times");
}
