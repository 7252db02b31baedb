#pragma once
// draws, laws and mothers shared by the decay specifications
static double u[4], lo[4], hi[4]; static int nu = 0; static const char* un[4] = {"u0", "u1", "u2", "u3"};
#ifndef VC_NATIVE
extern "C" double vcs_uniform(void*, double a, double b) { double v = vc_real(un[nu]); vc_assume(v >= a & v <= b); lo[nu] = a; hi[nu] = b; u[nu++] = v; return v; }
#endif
static std::shared_ptr<SIREN_random> rng(int & seed) {
#ifdef VC_NATIVE
  return std::make_shared<SIREN_random>(seed = vc_int_in("seed", 1, 1000000));
#else
  return std::shared_ptr<SIREN_random>((SIREN_random*)16, [](SIREN_random*) {});
#endif
}
// q = p c, where c is a function of the number X in [0, 1) behind the draw of the polar angle (the azimuth is the other of the two draws)
static bool follows(double (*law)(double, double), double q, double p, double par, int seed) {
#ifdef VC_NATIVE
  SIREN_random r(seed); bool ok = false; for(int i = 0; i < 2; ++i) ok |= std::fabs(q - p * law(r.Uniform(0, 1), par)) < 1e-3 * (1 + p); return ok;
#else
  int i = hi[0] > 3 ? 1 : 0; return q == p * law((u[i] - lo[i]) / (hi[i] - lo[i]), par);
#endif
}
// the root c in [-1, 1] of (1 + c)/2 + alpha (c^2 - 1)/4 = X
static double dipole_law(double X, double alpha) { if(alpha == 0) return 2 * X - 1; return (std::sqrt(1 - 2 * alpha * (1 - alpha / 2 - 2 * X)) - 1) / alpha; }
static double small(const char* n) {
#ifdef VC_NATIVE
  return std::fmod(vc_real(n), 10);
#else
  return vc_real(n);
#endif
}
static double mass(const char* n) {
#ifdef VC_NATIVE
  return 0.1 + std::fabs(small(n));
#else
  return vc_pos(n);
#endif
}
static InteractionRecord mother(ParticleType t, double m) {
  InteractionRecord r; double x = small("px"), y = small("py"), z = small("pz"); r.signature.primary_type = t; r.signature.target_type = ParticleType::Decay; r.primary_mass = m; r.primary_helicity = vc_bool("right") ? 0.5 : -0.5;
  r.primary_momentum = {std::sqrt(m * m + (x * x + y * y + z * z)), x, y, z}; return r;
}
// lemmas: proved once for all numbers (harnesses lemma_*), then used by checking their premises
static void premise(bool proving, bool c, const char* what) { if(proving) vc_assume(c); else vc_assert(c, what); }
static void conclude(bool proving, bool c, const char* what) { if(proving) vc_assert(c, what); else vc_assume(c); }
typedef std::array<double, 4> F;
static double dot(F const & a, F const & b) { return a[0] * b[0] - (a[1] * b[1] + a[2] * b[2] + a[3] * b[3]); }
// P - a is on the mass shell ml and has positive energy, for a mother P of mass M and a product a of mass mx with energy e in the rest frame of P
static void rest_lemma(bool proving, F const & P, F const & a, double M, double mx, double ml, double e) {
  premise(proving, dot(P, P) == sq(M), "the mother is on its mass shell"); premise(proving, dot(a, a) == sq(mx), "first product on its mass shell");
  premise(proving, dot(P, a) == M * e, "invariant product"); premise(proving, 2 * M * e == sq(M) + sq(mx) - sq(ml), "energy in the rest frame");
  premise(proving, 0 <= P[0], "positive energy"); premise(proving, 0 < M, "a massive mother"); premise(proving, 0 <= ml, "a mass"); premise(proving, 0 <= mx, "a mass"); premise(proving, mx + ml <= M, "the channel is open");
  F q{P[0] - a[0], P[1] - a[1], P[2] - a[2], P[3] - a[3]};
#ifndef VC_NATIVE
  if(proving) {
    double p2 = sq(P[1]) + sq(P[2]) + sq(P[3]), q2 = sq(q[1]) + sq(q[2]) + sq(q[3]), pq = P[1] * q[1] + P[2] * q[2] + P[3] * q[3];
    vc_eq(dot(q, q), sq(ml), "second product on its mass shell"); vc_le(0, M * (M - e), "less energy than the mother at rest"); vc_eq(dot(P, q), M * (M - e), "invariant product with the second product"); vc_le(sq(pq), p2 * q2, "Cauchy-Schwarz");
    if(q[0] < 0) { double d = dot(P, q); vc_le(0, d, "d"); vc_eq(pq, P[0] * q[0] - d, "d"); vc_le(P[0] * q[0] * d, 0, "sign"); vc_le(sq(P[0] * q[0]), sq(pq), "from below"); vc_le(q2, sq(q[0]), "q"); vc_eq(p2, sq(P[0]) - sq(M), "p"); vc_le(p2 * q2, p2 * sq(q[0]), "from above"); vc_le(sq(P[0] * q[0]), (sq(P[0]) - sq(M)) * sq(q[0]), "both"); vc_le(sq(M) * sq(q[0]), 0, "both"); }
  }
#endif
  conclude(proving, 0 <= q[0], "no product has more energy than the mother"); conclude(proving, dot(q, q) == sq(ml), "second product on its mass shell");
}
// a four-vector b with the momentum and the mass of P - a is P - a
static void shell_lemma(bool proving, F const & P, F const & a, F const & b, double ml) {
  premise(proving, 0 <= P[0] - a[0], "no product has more energy than the mother"); premise(proving, 0 <= b[0], "positive energy"); premise(proving, dot(b, b) == sq(ml), "second product on its mass shell");
  premise(proving, b[1] == P[1] - a[1], "momentum x"); premise(proving, b[2] == P[2] - a[2], "momentum y"); premise(proving, b[3] == P[3] - a[3], "momentum z");
  premise(proving, sq(P[0] - a[0]) - (sq(P[1] - a[1]) + sq(P[2] - a[2]) + sq(P[3] - a[3])) == sq(ml), "second product on its mass shell");
#ifndef VC_NATIVE
  if(proving) vc_eq(sq(P[0] - a[0]), sq(b[0]), "energy squared");
#endif
  conclude(proving, b[0] == P[0] - a[0], "energy");
}
#ifndef VC_NATIVE
static F any(const char* a, const char* b, const char* c, const char* d) { return F{vc_real(a), vc_real(b), vc_real(c), vc_real(d)}; }
#endif
// momentum and energy are conserved, and both products are on their mass shell; x is the product that was boosted from the rest frame
static void two_body(InteractionRecord const & r, InteractionRecord const & out, int x, double mx, double ml, bool difference = false) {
  auto const & P = r.primary_momentum; auto const & a = out.secondary_momenta[x]; auto const & b = out.secondary_momenta[1 - x]; double M = r.primary_mass;
  vc_eq(out.secondary_masses[x], mx, "mass of the first product");
  vc_eq(b[1], P[1] - a[1], "momentum x"); vc_eq(b[2], P[2] - a[2], "momentum y"); vc_eq(b[3], P[3] - a[3], "momentum z");
  vc_eq(sq(a[0]) - (sq(a[1]) + sq(a[2]) + sq(a[3])), sq(mx), "first product on its mass shell");
#ifndef VC_NATIVE
  double e = kin_b[0].e; vc_le(0, (sq(M) + sq(mx) - sq(ml)) / (2 * M), "the rest energy is positive"); vc_eq(e, (sq(M) + sq(mx) - sq(ml)) / (2 * M), "energy in the rest frame"); rest_lemma(false, P, a, M, mx, ml, e);
  if(!difference) shell_lemma(false, P, a, b, ml);
#endif
  vc_eq(b[0], P[0] - a[0], "energy"); vc_eq(sq(b[0]) - (sq(b[1]) + sq(b[2]) + sq(b[3])), sq(ml), "second product on its mass shell"); vc_eq(out.secondary_masses[1 - x], ml, "mass of the second product");
}
