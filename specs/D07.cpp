// Equality and ordering of signatures and event records.
// SOURCES: projects/dataclasses/private/InteractionRecord.cxx projects/dataclasses/private/InteractionSignature.cxx projects/dataclasses/private/DecaySignature.cxx projects/dataclasses/private/ParticleID.cxx projects/dataclasses/private/ParticleType.cxx projects/dataclasses/private/Particle.cxx projects/utilities/private/StringManipulation.cxx
// OPTS *: max_paths=20000
#include "common.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/dataclasses/InteractionSignature.h"
#include "SIREN/dataclasses/DecaySignature.h"
#include "SIREN/dataclasses/Particle.h"
using namespace siren::dataclasses;
static ParticleType any_type() { return (ParticleType)(int32_t)vc_int_in("type", -2000000000L, 2000000000L); }
static InteractionSignature any_sig(int maxs) { InteractionSignature s; s.primary_type = any_type(); s.target_type = any_type(); int n = vc_choice("ns", maxs + 1); for(int i = 0; i < n; ++i) s.secondary_types.push_back(any_type()); return s; }
static bool same_sig(InteractionSignature const & a, InteractionSignature const & b) {
  if(!(a.primary_type == b.primary_type) || !(a.target_type == b.target_type) || a.secondary_types.size() != b.secondary_types.size()) return false;
  for(size_t i = 0; i < a.secondary_types.size(); ++i) if(!(a.secondary_types[i] == b.secondary_types[i])) return false;
  return true;
}
//@ InteractionSignature ==, !=, <: equal exactly when primary, target and the ordered secondaries agree; < is a strict total order
VC_HARNESS(signature_order) {
  InteractionSignature a = any_sig(2), b = any_sig(2); bool s = same_sig(a, b);
  vc_assert((a == b) == s, "== exactly when all types agree"); vc_assert((a != b) == !s, "!= is the negation");
  vc_assert(!(a < a), "irreflexive"); vc_assert(!((a < b) && (b < a)), "asymmetric"); vc_assert(s == (!(a < b) && !(b < a)), "incomparable exactly when equal");
}
//@ InteractionSignature <: transitive
VC_HARNESS(signature_transitive) {
  InteractionSignature a = any_sig(1), b = any_sig(1), c = any_sig(1);
  if(a < b) if(b < c) { vc_assert(a < c, "transitive"); vc_cover("chain"); }
}
//@ DecaySignature ==: equal exactly when the primary and the ordered secondaries agree
VC_HARNESS(decay_signature) {
  InteractionSignature x = any_sig(2), y = any_sig(2); DecaySignature a, b; a.primary_type = x.primary_type; a.secondary_types = x.secondary_types; b.primary_type = y.primary_type; b.secondary_types = y.secondary_types;
  y.target_type = x.target_type; vc_assert((a == b) == same_sig(x, y), "== exactly when all types agree");
}
// one scalar slot of a record, by number
static const int NSLOT = 36;
static double & R(InteractionRecord & r, int k, double & dummy) {
  if(k < 3) return r.primary_initial_position[k];
  if(k == 3) return r.primary_initial_time; if(k == 4) return r.primary_mass;
  if(k < 9) return r.primary_momentum[k - 5];
  if(k == 9) return r.primary_helicity; if(k == 10) return r.target_mass; if(k == 11) return r.target_helicity;
  if(k < 15) return r.interaction_vertex[k - 12];
  if(k == 15) return r.interaction_time;
  if(k < 18) return r.secondary_masses[k - 16];
  if(k < 26) return r.secondary_momenta[(k - 18) / 4][(k - 18) % 4];
  if(k < 28) return r.secondary_helicities[k - 26];
  if(k < 30) return r.secondary_times[k - 28];
  return r.interaction_parameters["x"];
}
static InteractionRecord any_record() {
  InteractionRecord r; r.signature.primary_type = any_type(); r.signature.target_type = any_type(); r.signature.secondary_types = {any_type(), any_type()};
  r.primary_id = ParticleID(vc_int_in("pM", 0, 1000000), vc_int_in("pm", 0, 1000000)); r.target_id = ParticleID(vc_int_in("tM", 0, 1000000), vc_int_in("tm", 0, 1000000));
  r.secondary_ids = {ParticleID(vc_int_in("sM", 0, 1000000), vc_int_in("sm", 0, 1000000)), ParticleID()};
  r.secondary_masses.resize(2); r.secondary_momenta.resize(2); r.secondary_helicities.resize(2); r.secondary_times.resize(2); double d;
  for(int k = 0; k < 31; ++k) R(r, k, d) = vc_real("v");
  return r;
}
static void change(InteractionRecord & r, int slot) {
  double d;
  if(slot < 31) { double v = vc_real("new"); vc_assume(v != R(r, slot, d)); R(r, slot, d) = v; return; }
  if(slot == 31) { ParticleType t = any_type(); vc_assume(t != r.signature.primary_type); r.signature.primary_type = t; }
  if(slot == 32) { ParticleType t = any_type(); vc_assume(t != r.signature.secondary_types[1]); r.signature.secondary_types[1] = t; }
  if(slot == 33) { ParticleID t = vc_choice("unset", 2) ? ParticleID() : ParticleID(vc_int_in("nM", 0, 1000000), vc_int_in("nm", 0, 1000000)); vc_assume(t != r.primary_id); r.primary_id = t; }
  if(slot == 34) { ParticleID t = vc_choice("unset", 2) ? ParticleID() : ParticleID(vc_int_in("nM", 0, 1000000), vc_int_in("nm", 0, 1000000)); vc_assume(t != r.target_id); r.target_id = t; }
  if(slot == 35) { int w = vc_choice("list", 7); if(w == 0) r.secondary_ids[1] = ParticleID(1, 1); if(w == 1) r.secondary_ids.pop_back(); if(w == 2) r.secondary_masses.push_back(vc_real("x")); if(w == 3) r.secondary_momenta.pop_back(); if(w == 4) r.secondary_helicities.pop_back(); if(w == 5) r.secondary_times.push_back(vc_real("x")); if(w == 6) r.interaction_parameters["y"] = vc_real("x"); }
}
//@ InteractionRecord ==, <: a copy is equal and incomparable; records differing in any one quantity (each of 36 slots, any values) are unequal and strictly ordered one way
VC_HARNESS(record_order) {
  InteractionRecord a = any_record(), b = a;
  vc_assert(a == b, "a copy is equal"); vc_assert(!(a < b) && !(b < a), "a copy is incomparable");
  change(b, vc_choice("slot", NSLOT));
  vc_assert(!(a == b), "any difference makes records unequal"); vc_assert(!(b == a), "== is symmetric");
  vc_assert((a < b) != (b < a), "different records are strictly ordered one way");
  vc_cover("compared");
}
//@ InteractionRecord <: transitive (three records differing in any two scalar quantities)
VC_HARNESS(record_transitive) {
  InteractionRecord a = any_record(), b = a, c = a; double d; int i = vc_choice("i", 31), j = vc_choice("j", 31);
  vc_assume(i < j);
  R(b, i, d) = vc_real("bi"); R(c, i, d) = vc_real("ci"); R(b, j, d) = vc_real("bj"); R(c, j, d) = vc_real("cj");
  if(a < b) if(b < c) { vc_assert(a < c, "transitive"); vc_assert(!(c < a), "asymmetric"); }
}
//@ isNeutrino / isLepton / isCharged / isD: a neutrino is a neutral lepton; charged leptons and hadrons are charged; anything else has no charge and is refused (60 PDG codes)
VC_HARNESS(classification) {
  static const int codes[] = {0, 1, 10, 11, 12, 13, 14, 15, 16, 17, 18, 21, 22, 111, 211, 311, 321, 410, 411, 412, 421, 422, 430, 431, 432, 2212, 2112, 5914, 1000080160, 2000001006};
  int w = vc_choice("code", 30), sg = vc_choice("sign", 2); int cc = codes[w]; if(sg) cc = -cc;
  ParticleType p = (ParticleType)cc;
  bool nu = isNeutrino(p), lep = isLepton(p), threw = false, ch = false; try { ch = isCharged(p); } catch(std::runtime_error const &) { threw = true; }
  int a = sg ? -cc : cc;
  vc_assert(nu == (a == 12 || a == 14 || a == 16), "the neutrinos are PDG 12, 14, 16 and their antiparticles");
  vc_assert(lep == (a == 11 || a == 12 || a == 13 || a == 14 || a == 15 || a == 16), "the leptons are PDG 11 to 16 and their antiparticles");
  vc_assert(threw == !(lep || p == ParticleType::Hadrons), "charge is only defined for leptons and hadrons");
  if(!threw) vc_assert(ch == !nu, "charged exactly when not a neutrino");
  vc_assert(isD(p) == (a == 411 || a == 421 || a == 431), "D mesons");
}
