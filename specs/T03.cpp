// Material composition.
// SOURCES: projects/detector/private/MaterialModel.cxx projects/dataclasses/private/Particle.cxx
// ASSUMES: the table of atomic masses (AtomicMasses.cxx, data) is replaced by arbitrary positive masses for the nuclei used
// ASSUMES: reading material files (file streams) is not covered
#include "common.h"
#include <map>
#include <tuple>
#include <string>
#include "SIREN/detector/MaterialModel.h"
#include "SIREN/utilities/Constants.h"
using siren::detector::MaterialModel; typedef siren::dataclasses::ParticleType PT;
typedef std::map<std::tuple<int, int, int, int>, double> Masses;
const Masses MaterialModel::atomic_masses;
static const double NA = siren::utilities::Constants::avogadro;
static const int H = 1000010010, O = 1000080160, C = 1000060120, HE = 1000020040, HYP = 1010020050;
struct Nuc { int code, L, Z, A; };
Nuc nuclei[] = {{H, 0, 1, 1}, {HE, 0, 2, 4}, {C, 0, 6, 12}, {O, 0, 8, 16}, {HYP, 1, 2, 5}, {1000822080, 0, 82, 208}, {1000822071, 0, 82, 207}};
static double mn, mp;
static void masses(double* m) {
  Masses t; mn = vc_pos("m_n"); mp = vc_pos("m_p"); t[{0, 1, 0, 1}] = mn; t[{0, 0, 1, 1}] = mp; m[0] = mp;
  for(int i = 1; i < 7; ++i) { m[i] = vc_pos("m_A"); t[{nuclei[i].L, nuclei[i].A - nuclei[i].Z - nuclei[i].L, nuclei[i].Z, nuclei[i].A}] = m[i]; }
  new (const_cast<Masses*>(&MaterialModel::atomic_masses)) Masses(t);
}
//@ Component / GetMolarMass / Get*Count: PDG nuclear codes 10LZZZAAAI give Z protons, A nucleons, A-Z-L neutrons and the tabulated mass; nucleons and electron likewise
VC_HARNESS(component) {
  double m[7]; masses(m); int i = vc_choice("nucleus", 7); PT t = static_cast<PT>(nuclei[i].code);
  vc_assert(MaterialModel::GetProtonCount(t) == nuclei[i].Z, "protons"); vc_assert(MaterialModel::GetNucleonCount(t) == nuclei[i].A, "nucleons");
  vc_assert(MaterialModel::GetNeutronCount(t) == nuclei[i].A - nuclei[i].Z - nuclei[i].L, "neutrons"); vc_assert(MaterialModel::GetStrangeCount(t) == nuclei[i].L, "strangeness");
  vc_eq(MaterialModel::GetMolarMass(t), m[i], "molar mass from the table");
  MaterialModel::Component c(t); vc_assert(c.is_atom && c.type == t, "a nucleus is an atom");
  MaterialModel::Component p(PT::PPlus), n(PT::Neutron), N(PT::Nucleon), e(PT::EMinus);
  vc_assert(p.proton_count == 1 && p.neutron_count == 0 && p.nucleon_count == 1 && !p.is_atom, "proton"); vc_eq(p.molar_mass, mp, "proton mass");
  vc_assert(n.proton_count == 0 && n.neutron_count == 1 && n.nucleon_count == 1 && !n.is_atom, "neutron"); vc_eq(n.molar_mass, mn, "neutron mass");
  vc_assert(N.nucleon_count == 1 && !N.is_atom, "nucleon"); vc_eq(2 * N.molar_mass, mn + mp, "nucleon mass");
  vc_assert(e.nucleon_count == 0 && e.proton_count == 0 && e.neutron_count == 0 && !e.is_atom, "electron"); vc_le(5.4857e-4, e.molar_mass, "electron mass"); vc_le(e.molar_mass, 5.4859e-4, "electron mass");
  vc_assert(p == MaterialModel::Component(PT::PPlus) && !(p == n), "components are compared by particle type");
  vc_cover("component");
}
static void check(MaterialModel const & M, int id, std::vector<int> const & idx, std::vector<double> const & f, double const * m) {
  double n = 0, p = 0, N = 0;
  for(size_t i = 0; i < idx.size(); ++i) {
    Nuc const & c = nuclei[idx[i]]; PT t = static_cast<PT>(c.code); double per = f[i] / m[idx[i]];
    vc_eq(M.GetTargetMassFraction(id, t), f[i], "mass fraction of a component"); vc_eq(M.GetTargetParticleFraction(id, t), NA * per, "particles of a component per gram");
    n += per * (c.A - c.Z - c.L); p += per * c.Z; N += per * c.A;
  }
  vc_eq(M.GetTargetParticleFraction(id, PT::PPlus), NA * p, "protons per gram"); vc_eq(M.GetTargetParticleFraction(id, PT::EMinus), NA * p, "electrons per gram");
  vc_eq(M.GetTargetParticleFraction(id, PT::Neutron), NA * n, "neutrons per gram"); vc_eq(M.GetTargetParticleFraction(id, PT::Nucleon), NA * N, "nucleons per gram");
  vc_eq(M.GetTargetMassFraction(id, PT::PPlus), p * mp, "mass fraction of protons"); vc_eq(M.GetTargetMassFraction(id, PT::Neutron), n * mn, "mass fraction of neutrons");
  vc_eq(M.GetTargetMassFraction(id, PT::Nucleon), N * (mn + mp) / 2, "mass fraction of nucleons");
  size_t extra = (n > 0 ? 1 : 0) + 1 + 2;
  std::vector<PT> t = M.GetMaterialTargets(id), u = M.GetMaterialConstituents(id);
  vc_assert(t.size() == idx.size() + extra && u == t, "the targets are the components plus nucleons and electrons, once each");
  for(size_t i = 0; i < t.size(); ++i) { for(size_t j = 0; j < i; ++j) vc_assert(t[i] != t[j], "no target twice"); vc_assert(M.GetTargetParticleFraction(id, t[i]) > 0, "every target is present"); }
  t.push_back(static_cast<PT>(1000922380));
  std::vector<double> a = M.GetTargetMassFraction(id, t), b = M.GetTargetParticleFraction(id, t), c = M.GetTargetMassFraction(id, t.begin(), t.end()), d = M.GetTargetParticleFraction(id, t.begin(), t.end());
  vc_assert(a.size() == t.size() && b.size() == t.size() && c.size() == t.size() && d.size() == t.size(), "one fraction per requested target");
  for(size_t i = 0; i < t.size(); ++i) { vc_eq(a[i], M.GetTargetMassFraction(id, t[i]), "list form (mass)"); vc_eq(c[i], a[i], "range form (mass)"); vc_eq(b[i], M.GetTargetParticleFraction(id, t[i]), "list form (particles)"); vc_eq(d[i], b[i], "range form (particles)"); }
  vc_eq(a.back(), 0, "an absent target has no mass"); vc_eq(b.back(), 0, "an absent target has no particles");
}
//@ MaterialModel::AddMaterial: mass and particle fractions of every component and of the nucleons and electrons follow from the mass fractions; materials do not influence each other; names and ids correspond
VC_HARNESS(add_material) {
  double m[7]; masses(m); double f[4]; for(double & x : f) x = vc_pos("f");
  MaterialModel M; int which = vc_choice("which", 3);
  std::vector<int> i1 = which == 0 ? std::vector<int>{0, 3} : which == 1 ? std::vector<int>{2} : std::vector<int>{0, 2, 4}, i2{1};
  std::vector<double> f1(f, f + i1.size()), f2{f[3]};
  std::map<int, double> c1, c2; for(size_t k = 0; k < i1.size(); ++k) c1[nuclei[i1[k]].code] = f1[k];
  c2[HE] = f[3];
  vc_assert(!M.HasMaterial("A") && !M.HasMaterial(0), "empty");
  M.AddMaterial("A", c1); M.AddMaterial("B", c2);
  vc_assert(M.HasMaterial("A") && M.HasMaterial("B") && !M.HasMaterial("C") && M.HasMaterial(0) && M.HasMaterial(1) && !M.HasMaterial(2) && !M.HasMaterial(-1), "known materials");
  vc_assert(M.GetMaterialId("A") == 0 && M.GetMaterialId("B") == 1 && M.GetMaterialName(0) == "A" && M.GetMaterialName(1) == "B", "names and ids correspond");
  check(M, 0, i1, f1, m); check(M, 1, i2, f2, m);
  vc_cover("add");
}
//@ MaterialModel::AddMaterial for an existing name: the id stays, the old definition is forgotten, other materials are untouched
VC_HARNESS(redefine_material) {
  double m[7]; masses(m); double f[4]; for(double & x : f) x = vc_pos("f");
  MaterialModel M; M.AddMaterial("A", {{H, f[0]}, {O, f[1]}}); M.AddMaterial("B", {{HE, f[2]}});
  int k = vc_choice("new", 2); int nc = k ? 0 : 2;
  M.AddMaterial("A", {{nuclei[nc].code, f[3]}});
  vc_assert(M.GetMaterialId("A") == 0 && M.GetMaterialId("B") == 1 && !M.HasMaterial(2), "ids stay");
  check(M, 0, {nc}, {f[3]}, m); check(M, 1, {1}, {f[2]}, m);
  vc_eq(M.GetTargetMassFraction(0, static_cast<PT>(O)), 0, "a component of the old definition is gone");
  vc_cover("redefine");
}
static double x0inv(int i) { double Z = nuclei[i].Z, A = nuclei[i].A; return Z * (Z + 1) * std::log(287. / std::sqrt(Z)) / (716.4 * A); }
//@ GetMaterialRadiationLength: inverse radiation lengths of the nuclei add up with their mass fractions; GetTargetRadiationFraction gives each requested target its share, zero for absent and non-atomic ones
VC_HARNESS(radiation) {
  double m[7]; masses(m); double f0 = vc_pos("f"), f1 = vc_pos("f");
  MaterialModel M; M.AddMaterial("A", {{H, f0}, {O, f1}});
  double s = f0 * x0inv(0) + f1 * x0inv(3);
  vc_eq(M.GetMaterialRadiationLength(0) * s, 1, "inverse radiation lengths add up");
  std::vector<PT> t{static_cast<PT>(O), PT::PPlus, static_cast<PT>(C), static_cast<PT>(H)};
  std::vector<double> a = M.GetTargetRadiationFraction(0, t), b = M.GetTargetRadiationFraction(0, t.begin(), t.end());
  vc_assert(a.size() == 4 && b.size() == 4, "one fraction per target");
  vc_eq(a[0] * s, f1 * x0inv(3), "share of oxygen"); vc_eq(a[1], 0, "no share for a nucleon"); vc_eq(a[2], 0, "no share for an absent nucleus"); vc_eq(a[3] * s, f0 * x0inv(0), "share of hydrogen");
  for(int i = 0; i < 4; ++i) vc_eq(a[i], b[i], "range form");
  std::vector<double> z = M.GetTargetRadiationFraction(0, std::vector<PT>{static_cast<PT>(C), PT::EMinus}); vc_assert(z.size() == 2 && z[0] == 0 && z[1] == 0, "nothing requested that radiates");
  vc_cover("radiation");
}
