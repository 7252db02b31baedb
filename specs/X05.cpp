// Decay and depth ranges.
// SOURCES: projects/distributions/private/primary/vertex/RangeFunction.cxx projects/distributions/private/primary/vertex/DecayRangeFunction.cxx projects/distributions/private/primary/vertex/DepthFunction.cxx projects/distributions/private/primary/vertex/LeptonDepthFunction.cxx projects/dataclasses/private/InteractionSignature.cxx projects/dataclasses/private/ParticleType.cxx
#include "common.h"
#include "SIREN/dataclasses/Particle.h"
#include "SIREN/distributions/primary/vertex/RangeFunction.h"
#include "SIREN/distributions/primary/vertex/DecayRangeFunction.h"
#include "SIREN/distributions/primary/vertex/DepthFunction.h"
#include "SIREN/distributions/primary/vertex/LeptonDepthFunction.h"
using namespace siren::distributions; using siren::dataclasses::ParticleType;
static const ParticleType types[8] = {ParticleType::NuE, ParticleType::NuEBar, ParticleType::NuMu, ParticleType::NuMuBar, ParticleType::NuTau, ParticleType::NuTauBar, ParticleType::N4, ParticleType::MuMinus};
#ifdef VC_NATIVE
static double tie(const char* n, double x, double y) { return vc_choice(n, 2) ? x : y; }     // equal values must occur in the search
static double pos(const char* n, double hi) { double x = vc_pos(n); return (0.001 + x / (1 + x)) * hi; }
#else
static double tie(const char*, double x, double) { return x; }
static double pos(const char* n, double) { return vc_pos(n); }
#endif
template<class F> static void compare(F const & a, F const & b, bool same) {
  bool e = a == b, f = b == a, l = a < b, g = b < a;
  vc_assert(e == same, "equal exactly when they describe the same function"); vc_assert(e == f, "equality is symmetric");
  vc_assert((int)e + (int)l + (int)g == 1, "exactly one of less, equal, greater"); vc_assert(a == a && !(a < a), "a function equals itself");
}
//@ DecayRangeFunction: the decay length is beta gamma c tau, the range its multiple capped at the maximal distance
VC_HARNESS(decay_range) {
  double m = pos("m", 10), w = pos("w", 1), k = pos("k", 10), d = pos("d", 1e6), p = pos("p", 100), E = std::sqrt(m * m + p * p); ParticleType t = types[vc_choice("type", 8)];
#ifdef VC_NATIVE
  w *= 1e-17;
#endif
  DecayRangeFunction f(m, w, k, d);
  double L = f.DecayLength(t, E), S = DecayRangeFunction::DecayLength(m, w, E);
  vc_eq(L * m * w, p * 1.973269804593025e-16, "decay length = p / (m width) in metres"); vc_eq(L, S, "the same length for all types");
  double R = f.Range(t, E), X = L * k;
  vc_eq(R, X < d ? X : d, "the range is the multiple of the decay length, at most the maximal distance");
  vc_eq(f(t, E), R, "calling the function gives the range"); RangeFunction const & g = f; vc_eq(g(t, E), R, "also through its base class");
  vc_assert(f.ParticleMass() == m && f.DecayWidth() == w && f.Multiplier() == k && f.MaxDistance() == d, "the parameters are kept");
  vc_cover("decay range");
}
//@ DecayRangeFunction: equality and ordering by all four parameters
VC_HARNESS(decay_range_order) {
  double x[4], y[4]; static const char* n[4] = {"x0", "x1", "x2", "x3"}; static const char* m[4] = {"y0", "y1", "y2", "y3"}; static const char* t[4] = {"t0", "t1", "t2", "t3"};
  bool same = true; for(int k = 0; k < 4; ++k) { x[k] = vc_pos(n[k]); y[k] = tie(t[k], vc_pos(m[k]), x[k]); if(!(x[k] == y[k])) same = false; }
  DecayRangeFunction a(x[0], x[1], x[2], x[3]), b(y[0], y[1], y[2], y[3]); RangeFunction const & p = a; RangeFunction const & q = b; compare(p, q, same);
  vc_cover("decay range order");
}
struct OtherRange : virtual public RangeFunction { bool equal(RangeFunction const & o) const override { return dynamic_cast<OtherRange const *>(&o) != nullptr; } bool less(RangeFunction const &) const override { return false; } };
struct OtherDepth : virtual public DepthFunction { bool equal(DepthFunction const & o) const override { return dynamic_cast<OtherDepth const *>(&o) != nullptr; } bool less(DepthFunction const &) const override { return false; } };
//@ functions of different kinds are never equal and ordered one way
VC_HARNESS(kinds) {
  DecayRangeFunction a(vc_pos("m"), vc_pos("w"), 1, 1); OtherRange o; RangeFunction const & p = a; RangeFunction const & q = o; compare(p, q, false); compare(q, q, true);
  LeptonDepthFunction l; OtherDepth d; DepthFunction const & x = l; DepthFunction const & y = d; compare(x, y, false);
  vc_cover("kinds");
}
//@ LeptonDepthFunction: muon depth ln(1+E b/a)/b, plus the tau depth for tau neutrinos, at most the maximal depth
VC_HARNESS(lepton_depth) {
  double a = pos("a", 1), b = pos("b", 1e-3), c = pos("c", 10), d = pos("d", 1e-3), M = pos("M", 1e5), E = pos("E", 1e5); int k = vc_choice("type", 8); ParticleType t = types[k];
  LeptonDepthFunction f; f.SetMuParams(a, b); f.SetTauParams(c, d); f.SetMaxDepth(M);
  vc_assert(f.GetMuAlpha() == a && f.GetMuBeta() == b && f.GetTauAlpha() == c && f.GetTauBeta() == d && f.GetMaxDepth() == M && f.GetScale() == 1, "the parameters are kept");
  double mu = std::log(1.0 + E * b / a) / b, tau = std::log(1.0 + E * d / c) / d, r = k == 4 || k == 5 ? mu + tau : mu;
  vc_assert(mu > 0 && tau > 0, "lemma: depths are positive");
  double v = f(t, E);
  if(r <= M) vc_eq(v, r, "the depth of the charged lepton"); else vc_eq(v, M, "at most the maximal depth");
  vc_assert(v > 0, "the depth is positive"); DepthFunction const & g = f; vc_eq(g(t, E), v, "also through its base class");
  vc_cover("lepton depth");
}
//@ LeptonDepthFunction grows with energy
VC_HARNESS(lepton_depth_grows) {
  double a = pos("a", 1), b = pos("b", 1e-3), c = pos("c", 10), d = pos("d", 1e-3), M = pos("M", 1e5), E = pos("E", 1e5), dE = pos("dE", 1e5); ParticleType t = types[vc_choice("type", 8)];
  LeptonDepthFunction f; f.SetMuParams(a, b); f.SetTauParams(c, d); f.SetMaxDepth(M);
  double x = 1.0 + E * b / a, y = 1.0 + (E + dE) * b / a, z = 1.0 + E * d / c, w = 1.0 + (E + dE) * d / c;
  vc_assert(x > 1 && y > x && z > 1 && w > z, "lemma: arguments grow"); vc_assert(std::log(y) > std::log(x) && std::log(w) > std::log(z), "lemma: logarithms grow");
  vc_assert(std::log(y) / b > std::log(x) / b, "lemma: depths grow"); vc_assert(std::log(w) / d > std::log(z) / d, "lemma: depths grow");
  vc_le(f(t, E), f(t, E + dE), "the depth grows with energy");
  vc_cover("lepton depth grows");
}
//@ LeptonDepthFunction: equality and ordering by its parameters
VC_HARNESS(lepton_depth_order) {
  double x[6], y[6]; static const char* n[6] = {"x0", "x1", "x2", "x3", "x4", "x5"}; static const char* m[6] = {"y0", "y1", "y2", "y3", "y4", "y5"}; static const char* t[6] = {"t0", "t1", "t2", "t3", "t4", "t5"};
  bool same = true; for(int k = 0; k < 6; ++k) { x[k] = vc_pos(n[k]); y[k] = tie(t[k], vc_pos(m[k]), x[k]); if(!(x[k] == y[k])) same = false; }
  LeptonDepthFunction a, b; a.SetMuParams(x[0], x[1]); a.SetTauParams(x[2], x[3]); a.SetScale(x[4]); a.SetMaxDepth(x[5]); b.SetMuParams(y[0], y[1]); b.SetTauParams(y[2], y[3]); b.SetScale(y[4]); b.SetMaxDepth(y[5]);
  DepthFunction const & p = a; DepthFunction const & q = b; compare(p, q, same);
  vc_cover("lepton depth order");
}
