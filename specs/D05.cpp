// Particle identifiers.
// SOURCES: projects/dataclasses/private/ParticleID.cxx projects/dataclasses/private/Particle.cxx projects/dataclasses/private/ParticleType.cxx projects/utilities/private/StringManipulation.cxx
// REPLACE: getpid => stub_getpid
// REPLACE: std::_Hash_bytes(void const*, unsigned long, unsigned long) => stub_hash
// REPLACE: ~^std::__cxx11::basic_stringstream<.*>::str\(\) const$ => stub_str
// REPLACE: ~^std::__cxx11::basic_stringbuf<.*>::str\(\) const$ => stub_str
// ASSUMES: two different processes get different hashes of (time, process id, host id); the hash itself is an arbitrary number
#include "common.h"
#include "SIREN/dataclasses/ParticleID.h"
#include "SIREN/dataclasses/Particle.h"
using siren::dataclasses::ParticleID; using siren::dataclasses::Particle;
static int cur_pid = 100; static long hashes[8]; static int nhash = 0;
extern "C" int stub_getpid() { return cur_pid; }
extern "C" unsigned long stub_hash(void const *, unsigned long, unsigned long) {
  long h = vc_int_in("hash", 0, 1000000); for(int i = 0; i < nhash; ++i) vc_assume(h != hashes[i]);
  hashes[nhash++] = h; return (unsigned long)h;
}
extern "C" std::string stub_str(void const *) { return std::string(); }
#ifdef VC_NATIVE
extern "C" int getpid() noexcept { return cur_pid; }
#endif
//@ ParticleID::GenerateID: in any history of one or two processes (fork between any two calls) every identifier is set and differs from all earlier ones; ==, < and conversion agree
VC_HARNESS(generate_unique) {
  ParticleID id[5]; int forked = vc_choice("fork-before", 5);
  for(int i = 0; i < 5; ++i) { if(i == forked) ++cur_pid; id[i] = ParticleID::GenerateID(); }
  for(int i = 0; i < 5; ++i) {
    vc_assert(id[i].IsSet(), "a generated identifier is set");
    for(int j = 0; j < i; ++j) { vc_assert(!(id[i] == id[j]), "generated identifiers are unique"); vc_assert(id[i] != id[j], "!= says so too"); }
  }
  vc_cover("generate");
}
//@ Particle::GenerateID: the particle keeps the generated identifier and returns it; an unset particle has no identifier
VC_HARNESS(particle_generate) {
  Particle p; vc_assert(!p.id.IsSet(), "a fresh particle has no identifier");
  ParticleID & a = p.GenerateID(); vc_assert(p.id.IsSet() && a == p.id, "the particle carries the returned identifier");
  Particle q; q.GenerateID(); vc_assert(q.id != p.id, "two particles get different identifiers");
}
//@ ParticleID(major, minor), SetID, copies: get exactly what was given; default is unset
VC_HARNESS(value) {
  long M = vc_int_in("major", 0, 1L << 60), m = vc_int_in("minor", -2147483647, 2147483647);
  ParticleID z; vc_assert(!z.IsSet() && !bool(z), "default is unset");
  ParticleID a(M, m); vc_assert(a.IsSet() && bool(a), "an explicit identifier is set"); vc_assert((long)a.GetMajorID() == M, "major"); vc_assert(a.GetMinorID() == m, "minor");
  ParticleID b; b.SetID(M, m); vc_assert(b.IsSet() && (long)b.GetMajorID() == M && b.GetMinorID() == m, "SetID stores the identifier"); vc_assert(a == b, "same numbers are equal");
  ParticleID c(a), d; d = a; vc_assert(c == a && d == a && !(c != a), "copies are equal");
  vc_assert(z != a && !(z == a), "unset differs from set");
}
static ParticleID any_id() { if(vc_choice("set", 2)) { ParticleID r(vc_int_in("M", 0, 1L << 60), vc_int_in("m", -2147483647, 2147483647)); return r; } return ParticleID(); }
//@ ParticleID::operator<, ==, !=: strict total order consistent with equality, so identifiers work as keys
VC_HARNESS(order) {
  ParticleID a = any_id(), b = any_id(), c = any_id();
  bool same = a.IsSet() == b.IsSet() && a.GetMajorID() == b.GetMajorID() && a.GetMinorID() == b.GetMinorID();
  vc_assert((a == b) == same, "equal exactly when all parts agree");
  vc_assert((a != b) == !same, "!= is the negation");
  vc_assert(!(a < a), "irreflexive"); vc_assert(!(a < b && b < a), "asymmetric");
  vc_assert(same == (!(a < b) && !(b < a)), "incomparable exactly when equal");
  if(a < b && b < c) vc_assert(a < c, "transitive");
}
