// Processes: what was given is what is used, injection and physical lists in step.
// SOURCES: projects/injection/private/Process.cxx projects/distributions/private/Distributions.cxx projects/interactions/private/InteractionCollection.cxx projects/interactions/private/CrossSection.cxx projects/interactions/private/Decay.cxx projects/dataclasses/private/InteractionRecord.cxx projects/dataclasses/private/InteractionSignature.cxx projects/dataclasses/private/Particle.cxx projects/dataclasses/private/ParticleID.cxx projects/dataclasses/private/ParticleType.cxx projects/math/private/Vector3D.cxx vendor/rk/rk/rk.cc vendor/rk/rk/geom3.cc
// ASSUMES: distributions are used through their interface: any class comparing by value
#include "common.h"
#include "SIREN/injection/Process.h"
#include "SIREN/interactions/CrossSection.h"
#include "SIREN/interactions/Decay.h"
#include "SIREN/interactions/InteractionCollection.h"
#include "SIREN/utilities/Random.h"
#include "SIREN/dataclasses/InteractionRecord.h"
using namespace siren::injection; using namespace siren::distributions; using siren::dataclasses::ParticleType; using siren::interactions::InteractionCollection; using siren::utilities::SIREN_random; using siren::detector::DetectorModel; using siren::dataclasses::InteractionRecord;
// any distribution: two are equal when their class and value agree
template<class B, class R> struct Dist : public B {
  int v; Dist(int v) : v(v) {}
  double GenerationProbability(std::shared_ptr<DetectorModel const>, std::shared_ptr<InteractionCollection const>, InteractionRecord const &) const override { return 1; }
  std::string Name() const override { return "Dist"; }
  void Sample(std::shared_ptr<SIREN_random>, std::shared_ptr<DetectorModel const>, std::shared_ptr<InteractionCollection const>, R &) const override {}
  std::shared_ptr<B> clone() const override { return std::make_shared<Dist>(*this); }
  bool equal(WeightableDistribution const & o) const override { auto x = dynamic_cast<Dist const *>(&o); return x && x->v == v; }
  bool less(WeightableDistribution const & o) const override { auto x = dynamic_cast<Dist const *>(&o); return x && v < x->v; }
};
struct Phys : public WeightableDistribution {
  int v; Phys(int v) : v(v) {}
  double GenerationProbability(std::shared_ptr<DetectorModel const>, std::shared_ptr<InteractionCollection const>, InteractionRecord const &) const override { return 1; }
  std::string Name() const override { return "Phys"; }
  bool equal(WeightableDistribution const & o) const override { auto x = dynamic_cast<Phys const *>(&o); return x && x->v == v; }
  bool less(WeightableDistribution const & o) const override { auto x = dynamic_cast<Phys const *>(&o); return x && v < x->v; }
};
// one adapter per kind of process: D its distributions
struct Prim { typedef PrimaryInjectionProcess P; typedef PrimaryInjectionDistribution D; typedef Dist<D, siren::dataclasses::PrimaryDistributionRecord> Make;
  static void add(P & p, std::shared_ptr<D> d) { p.AddPrimaryInjectionDistribution(d); } static void set(P & p, std::vector<std::shared_ptr<D>> const & d) { p.SetPrimaryInjectionDistributions(d); } static std::vector<std::shared_ptr<D>> const & get(P const & p) { return p.GetPrimaryInjectionDistributions(); } static const bool inj = true; };
struct Seco { typedef SecondaryInjectionProcess P; typedef SecondaryInjectionDistribution D; typedef Dist<D, siren::dataclasses::SecondaryDistributionRecord> Make;
  static void add(P & p, std::shared_ptr<D> d) { p.AddSecondaryInjectionDistribution(d); } static void set(P & p, std::vector<std::shared_ptr<D>> const & d) { p.SetSecondaryInjectionDistributions(d); } static std::vector<std::shared_ptr<D>> const & get(P const & p) { return p.GetSecondaryInjectionDistributions(); } static const bool inj = true; };
struct Phy { typedef PhysicalProcess P; typedef WeightableDistribution D; typedef Phys Make;
  static void add(P & p, std::shared_ptr<D> d) { p.AddPhysicalDistribution(d); } static void set(P & p, std::vector<std::shared_ptr<D>> const & d) { p.SetPhysicalDistributions(d); } static std::vector<std::shared_ptr<D>> const & get(P const & p) { return p.GetPhysicalDistributions(); } static const bool inj = false; };
template<class K> static bool has(typename K::P const & p, std::vector<std::shared_ptr<typename K::D>> const & want) {     // both lists are the wanted one
  auto const & a = K::get(p); auto const & b = p.GetPhysicalDistributions(); if(a.size() != want.size() || b.size() != want.size()) return false; bool ok = true;
  for(size_t k = 0; k < want.size(); ++k) ok &= (a[k] == want[k]) & (b[k] == std::static_pointer_cast<WeightableDistribution>(want[k])); return ok;
}
template<class K> static void adding() {
  typedef typename K::Make M; std::vector<std::shared_ptr<typename K::D>> all, want; static const char* nm[3] = {"v0", "v1", "v2"}; auto col = std::make_shared<InteractionCollection>();
  typename K::P p(ParticleType::NuMu, col); int v[3];
  for(int k = 0; k < 3; ++k) { v[k] = vc_choice(nm[k], 3); all.push_back(std::make_shared<M>(v[k])); }
  for(int k = 0; k < 3; ++k) {
    bool dup = false; for(int j = 0; j < k; ++j) dup |= v[j] == v[k];
    bool thrown = false; try { K::add(p, all[k]); } catch(std::runtime_error const &) { thrown = true; }
    vc_assert(thrown == dup, "a distribution equal to one already there is refused"); if(!dup) want.push_back(all[k]);
    vc_assert(has<K>(p, want), "both lists have exactly what was added, in order");
    bool again = false; try { K::add(p, all[k]); } catch(std::runtime_error const &) { again = true; } vc_assert(again, "the same distribution is refused");
    vc_assert(has<K>(p, want), "a refused distribution changes nothing");
  }
  if(K::inj) {
    bool thrown = false; try { PhysicalProcess & q = p; q.AddPhysicalDistribution(std::make_shared<Phys>(7)); } catch(std::runtime_error const &) { thrown = true; }
    vc_assert(thrown && has<K>(p, want), "an injection process takes no purely physical distribution");
  }
  vc_assert(p.GetPrimaryType() == ParticleType::NuMu && p.GetInteractions() == col, "adding distributions changes nothing else");
}
template<class K> static void setting() {
  typedef typename K::Make M; std::vector<std::shared_ptr<typename K::D>> old, neu; static const char* nm[3] = {"v0", "v1", "v2"};
  typename K::P p(ParticleType::NuMu, nullptr); int m = vc_choice("old", 3), n = vc_choice("n", 4), v[3];
  for(int k = 0; k < m; ++k) { old.push_back(std::make_shared<M>(k)); K::add(p, old[k]); }
  bool dup = false; for(int k = 0; k < n; ++k) { v[k] = vc_choice(nm[k], 3); for(int j = 0; j < k; ++j) dup |= v[j] == v[k]; neu.push_back(std::make_shared<M>(v[k])); }
  bool thrown = false; try { K::set(p, neu); } catch(std::runtime_error const &) { thrown = true; }
  vc_assert(thrown == dup, "a list with two equal distributions is refused");
  if(dup) vc_assert(has<K>(p, old), "a refused list changes nothing"); else vc_assert(has<K>(p, neu), "both lists are the given one");
  if(!dup) { auto x = std::make_shared<M>(5); K::add(p, x); neu.push_back(x); vc_assert(has<K>(p, neu), "adding after setting keeps both lists in step"); }
}
template<class K> static void copying() {
  typedef typename K::Make M; std::vector<std::shared_ptr<typename K::D>> v, w; auto c1 = std::make_shared<InteractionCollection>(), c2 = std::make_shared<InteractionCollection>();
  typename K::P p(ParticleType::NuMu, c1), q(ParticleType::NuE, c2); int n = vc_choice("n", 3), m = vc_choice("m", 3);
  for(int k = 0; k < n; ++k) { v.push_back(std::make_shared<M>(k)); K::add(p, v[k]); } for(int k = 0; k < m; ++k) { w.push_back(std::make_shared<M>(k + 5)); K::add(q, w[k]); }
  typename K::P r(p), s(std::move(typename K::P(p))); vc_assert(has<K>(r, v) && r == p && has<K>(s, v) && s == p && has<K>(p, v), "copies have the same distributions, type and interactions");
  typename K::P a(q), b(q); a = p; b = typename K::P(p);
  vc_assert(has<K>(a, v) && a.GetPrimaryType() == ParticleType::NuMu && a.GetInteractions() == c1, "assignment takes over everything"); vc_assert(has<K>(b, v) && b.GetPrimaryType() == ParticleType::NuMu && b.GetInteractions() == c1, "move assignment takes over everything");
  auto x = std::make_shared<M>(9); K::add(a, x); vc_assert(has<K>(p, v) && has<K>(r, v) && has<K>(q, w), "a copy is independent");
  vc_assert(!(p == q) && p == p, "equal exactly when type and interactions agree");
}
//@ AddPrimaryInjectionDistribution: refuses duplicates by value, keeps the injection and the physical list in step
VC_HARNESS(add_primary) { adding<Prim>(); vc_cover("add primary"); }
//@ AddSecondaryInjectionDistribution: refuses duplicates by value, keeps the injection and the physical list in step
VC_HARNESS(add_secondary) { adding<Seco>(); vc_cover("add secondary"); }
//@ AddPhysicalDistribution: refuses duplicates by value
VC_HARNESS(add_physical) { adding<Phy>(); vc_cover("add physical"); }
//@ SetPrimaryInjectionDistributions: takes over the whole list or refuses it, both lists in step
VC_HARNESS(set_primary) { setting<Prim>(); vc_cover("set primary"); }
//@ SetSecondaryInjectionDistributions: takes over the whole list or refuses it, both lists in step
VC_HARNESS(set_secondary) { setting<Seco>(); vc_cover("set secondary"); }
//@ SetPhysicalDistributions: takes over the whole list or refuses it
VC_HARNESS(set_physical) { setting<Phy>(); vc_cover("set physical"); }
//@ copies and assignments of primary injection processes
VC_HARNESS(copy_primary) { copying<Prim>(); vc_cover("copy primary"); }
//@ copies and assignments of secondary injection processes
VC_HARNESS(copy_secondary) { copying<Seco>(); vc_cover("copy secondary"); }
//@ copies and assignments of physical processes
VC_HARNESS(copy_physical) { copying<Phy>(); vc_cover("copy physical"); }
//@ the primary type of a process and of its interactions agree after either is set
VC_HARNESS(types) {
  ParticleType a = (ParticleType)vc_int_in("a", -2147483647, 2147483647), b = (ParticleType)vc_int_in("b", -2147483647, 2147483647), c = (ParticleType)vc_int_in("c", -2147483647, 2147483647); typedef std::vector<std::shared_ptr<siren::interactions::CrossSection>> V;
  auto x = std::make_shared<InteractionCollection>(a, V()), y = std::make_shared<InteractionCollection>(b, V());
  PhysicalProcess p(a, x); vc_assert(p.GetPrimaryType() == a && p.GetInteractions() == x, "what was given is kept");
  p.SetInteractions(y); vc_assert(p.GetPrimaryType() == b && p.GetInteractions() == y, "setting interactions sets the primary type to theirs");
  p.SetPrimaryType(c); vc_assert(p.GetPrimaryType() == c && y->GetPrimaryType() == c && x->GetPrimaryType() == a, "setting the primary type sets it on the interactions in use");
  PhysicalProcess q; q.SetPrimaryType(b); vc_assert(q.GetPrimaryType() == b && !q.GetInteractions(), "a process without interactions takes a type");
  SecondaryInjectionProcess s(a, x); vc_assert(s.GetSecondaryType() == a, "the secondary type is the primary type of a secondary process");
  s.SetSecondaryType(b); vc_assert(s.GetSecondaryType() == b && s.GetPrimaryType() == b && x->GetPrimaryType() == b, "setting the secondary type sets all three");
  auto u = std::make_shared<PhysicalProcess>(a, x), w = std::make_shared<PhysicalProcess>(b, y); vc_assert(u->MatchesHead(w) == (a == b), "heads match exactly when the primary types agree");
  vc_cover("types");
}
