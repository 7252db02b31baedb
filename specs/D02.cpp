// SOURCES: projects/dataclasses/private/InteractionRecord.cxx projects/dataclasses/private/InteractionSignature.cxx projects/dataclasses/private/ParticleID.cxx projects/dataclasses/private/Particle.cxx
// REPLACE: siren::dataclasses::ParticleID::GenerateID() => stub_generate_id
// ASSUMES: the values set on the record are mutually consistent (they describe one straight track of positive length)
#include "common.h"
#include "SIREN/dataclasses/InteractionRecord.h"
using namespace siren::dataclasses;
extern "C" ParticleID stub_generate_id() { static int n = 0; return ParticleID(77, ++n); }
struct Track { A3 d, b, x0, xv; double s0, s1, L; };
// any straight track: closest point b to the origin, direction d, signed distances s0 < s1 of its ends from b
static Track truth() {
  Track t; t.d = any_unit("theta", "phi"); A3 w = {vc_real("wx"), vc_real("wy"), vc_real("wz")}; double k = dot3(w, t.d);
  t.b = {w[0] - k*t.d[0], w[1] - k*t.d[1], w[2] - k*t.d[2]}; t.s0 = vc_real("s0"); t.L = vc_pos("L"); t.s1 = t.s0 + t.L;
  for(int i = 0; i < 3; ++i) { t.x0[i] = t.b[i] + t.s0*t.d[i]; t.xv[i] = t.b[i] + t.s1*t.d[i]; }
  return t;
}
enum { D = 1, L = 2, X0 = 4, XV = 8, B = 16, S0 = 32, S1 = 64 };
static bool has(int s, int m) { return (s & m) == m; }
static void set(PrimaryDistributionRecord & r, Track const & t, int s) {
  if(s & D) r.SetDirection(t.d); if(s & L) r.SetLength(t.L); if(s & X0) r.SetInitialPosition(t.x0); if(s & XV) r.SetInteractionVertex(t.xv);
  if(s & B) r.SetPointOfClosestApproach(t.b); if(s & S0) r.SetInitialDistanceFromClosestApproach(t.s0); if(s & S1) r.SetVertexDistanceFromClosestApproach(t.s1);
}
static void check(PrimaryDistributionRecord const & r, Track const & t, int s) {
  bool ok;
  ok = true; try { A3 x = r.GetDirection(); VC_EQA3(x, t.d, "direction"); } catch(std::runtime_error const &) { ok = false; } vc_assert(ok || !(has(s, D) || has(s, X0|XV)), "direction is derivable");
  ok = true; try { double x = r.GetLength(); vc_eq(x, t.L, "length"); } catch(std::runtime_error const &) { ok = false; } vc_assert(ok || !(has(s, L) || has(s, X0|XV) || has(s, S0|S1)), "length is derivable");
  ok = true; try { A3 x = r.GetInitialPosition(); VC_EQA3(x, t.x0, "initial position"); } catch(std::runtime_error const &) { ok = false; } vc_assert(ok || !(has(s, X0) || has(s, XV|D|L) || has(s, XV|D|S0|S1) || has(s, S0|D|B)), "initial position is derivable");
  ok = true; try { A3 x = r.GetInteractionVertex(); VC_EQA3(x, t.xv, "interaction vertex"); } catch(std::runtime_error const &) { ok = false; } vc_assert(ok || !(has(s, XV) || has(s, X0|D|L) || has(s, X0|D|S0|S1) || has(s, S1|D|B)), "interaction vertex is derivable");
  ok = true; try { A3 x = r.GetPointOfClosestApproach(); VC_EQA3(x, t.b, "point of closest approach"); } catch(std::runtime_error const &) { ok = false; } vc_assert(ok || !(has(s, B) || has(s, X0|D|S0) || has(s, XV|D|S1) || has(s, X0|XV)), "point of closest approach is derivable");
  ok = true; try { double x = r.GetVertexDistanceFromClosestApproach(); vc_eq(x, t.s1, "vertex distance"); } catch(std::runtime_error const &) { ok = false; } vc_assert(ok || !(has(s, S1) || has(s, S0|L) || has(s, XV|D) || has(s, XV|X0)), "vertex distance is derivable");
  ok = true; try { double x = r.GetInitialDistanceFromClosestApproach(); vc_eq(x, t.s0, "initial distance"); } catch(std::runtime_error const &) { ok = false; } vc_assert(ok || !(has(s, S0) || has(s, S1|L) || has(s, X0|D) || has(s, X0|XV)), "initial distance is derivable");
}
//@ whichever of direction, length, start, vertex, closest point and its two signed distances are set (consistently), every getter returns the track's value or refuses with runtime_error
VC_HARNESS(trajectory) {
  Track t = truth(); PrimaryDistributionRecord r(ParticleType::NuMu); int s = vc_choice("set", 128); set(r, t, s);
  check(r, t, s); vc_cover("post");
}
//@ ... whatever getters ran before
VC_HARNESS(trajectory_order) {
  Track t = truth(); PrimaryDistributionRecord r(ParticleType::NuMu); int s = vc_choice("set", 128); set(r, t, s);
  try { r.GetInitialDistanceFromClosestApproach(); } catch(std::runtime_error const &) {} try { r.GetVertexDistanceFromClosestApproach(); } catch(std::runtime_error const &) {} try { r.GetPointOfClosestApproach(); } catch(std::runtime_error const &) {}
  try { r.GetInteractionVertex(); } catch(std::runtime_error const &) {} try { r.GetInitialPosition(); } catch(std::runtime_error const &) {} try { r.GetLength(); } catch(std::runtime_error const &) {} try { r.GetDirection(); } catch(std::runtime_error const &) {}
  check(r, t, s); vc_cover("post");
}
//@ the direction may also come from the momentum
VC_HARNESS(direction_from_momentum) {
  Track t = truth(); double p = vc_pos("p"); PrimaryDistributionRecord r(ParticleType::NuMu); r.SetThreeMomentum({p*t.d[0], p*t.d[1], p*t.d[2]}); A3 x = r.GetDirection(); VC_EQA3(x, t.d, "direction");
  int s = vc_choice("set", 128); vc_assume(!(s & D)); set(r, t, s); x = r.GetDirection(); VC_EQA3(x, t.d, "direction kept"); vc_cover("post");
}
