// C03: material models.  Every coefficient a user gives (or leaves to its documented default) reaches the law that is evaluated.
#include "kk.hpp"
#include <Teuchos_ParameterList.hpp>
#include <Teuchos_XMLParameterListHelpers.hpp>
#include "MaterialModel.hpp"
#include "IsotropicMaterialUtilities.hpp"
#include "ThermalConductivityMaterial.hpp"
#include "ThermalMassMaterial.hpp"
#include "ThermoelasticMaterial.hpp"
#include "ThermalFlux.hpp"
#include "ThermalContent.hpp"
using namespace kk; using PL = Teuchos::ParameterList;
static double poly(const D& c, double t) { return c[0] + c[1] * t + c[2] * t * t; }
static double pmag(const D& c, double t) { return std::fabs(c[0]) + std::fabs(c[1] * t) + std::fabs(c[2] * t * t); }
// optionally sets "name"; returns the value in force
static double opt(Rng& g, PL& p, const std::string& n, double dflt, double prob = 0.5) { if (g.coin(prob)) { double v = g.real(); p.set(n, v); return v; } return dflt; }
static int nv(int d) { return d * (d + 1) / 2; }
// ---- references: coefficient tensors with the documented defaults
static M refTensor(Rng& g, PL& p, int d, const std::string& pre, bool req) { M t(d, d); double c11 = req ? (p.set("c" + pre + "11", g.real()), p.get<double>("c" + pre + "11")) : opt(g, p, "c" + pre + "11", 0.0); t(0, 0) = c11; for (int i = 1; i < d; ++i) t(i, i) = opt(g, p, str("c", pre, i + 1, i + 1), c11);
  for (int i = 0; i < d; ++i) for (int j = i + 1; j < d; ++j) t(i, j) = t(j, i) = opt(g, p, str("c", pre, i + 1, j + 1), 0.0); return t; }
static M refVoigt(Rng& g, PL& p, int d, const std::string& pre, bool req) { int n = nv(d); M t(n, n); auto R = [&](const std::string& nm) { double v = g.real(); p.set(nm, v); return v; }; double c11 = req ? R("c" + pre + "11") : opt(g, p, "c" + pre + "11", 0.0); t(0, 0) = c11; if (d == 1) return t;
  for (int i = 1; i < d; ++i) t(i, i) = opt(g, p, str("c", pre, i + 1, i + 1), c11); double cs; std::string sn = str("c", pre, d + 1, d + 1); cs = req ? R(sn) : opt(g, p, sn, 0.0); t(d, d) = cs; for (int i = d + 1; i < n; ++i) t(i, i) = opt(g, p, str("c", pre, i + 1, i + 1), cs);
  double c12 = opt(g, p, "c" + pre + "12", 0.0); t(0, 1) = t(1, 0) = c12; if (d == 3) { t(0, 2) = t(2, 0) = opt(g, p, "c" + pre + "13", c12); t(1, 2) = t(2, 1) = opt(g, p, "c" + pre + "23", c12); } return t; }
static M refIso(int d, double E, double v) { int n = nv(d); M t(n, n); double la = E * v / ((1 + v) * (1 - 2 * v)), mu = E / (2 * (1 + v)); for (int i = 0; i < d; ++i) { for (int j = 0; j < d; ++j) t(i, j) = la; t(i, i) += 2 * mu; } for (int i = d; i < n; ++i) t(i, i) = mu; return t; }
template <class F> static void cmpF(Ctx& c, F& f, int n, const M* k, double t, const std::string& key) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { D cc{k[0](i, j), k[1](i, j), k[2](i, j)}; c.close(f(t, i, j), poly(cc, t), key, pmag(cc, t), 1e-12, str(i, ",", j)); c.check(f(t, i, j) == f(t, j, i), key + "-symmetric"); } }
template <class F> static void cmpC(Ctx& c, F& f, int n, const M& k, const std::string& key, double rtol = 1e-12) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { c.close(f(i, j), k(i, j), key, amax(k.a), rtol, str(i, ",", j)); c.check(f(i, j) == f(j, i), key + "-symmetric"); } }
static double nu(Rng& g) { return g.coin(0.2) ? g.uni(-0.9, 0.0) : g.uni(0.0, 0.49); }

VH_GROUP(scalar_functor) { auto& g = c.rng; for (int it = 0; it < c.n(400, 10000); ++it) { PL p; D k(3); k[0] = g.real(); p.set("c0", k[0]); k[1] = opt(g, p, "c1", 0.0); k[2] = opt(g, p, "c2", 0.0); double t = g.real(); c.begin(str("c0=", k[0], " c1=", k[1], " c2=", k[2], " t=", t)); Plato::ScalarFunctor f(p); c.close(f(t), poly(k, t), "scalar-functor", pmag(k, t), 1e-12); Plato::ScalarFunctor h(k[0]); c.close(h(t), k[0], "scalar-functor-constant", 0, 1e-12); Plato::ScalarFunctor z; c.check(z(t) == 0, "scalar-functor-default-zero");
    PL q(p); q.remove("c0"); c.rejects([&] { Plato::ScalarFunctor b(q); }, "scalar-functor-needs-c0"); } }
template <int d> static void tensors(Ctx& c) { auto& g = c.rng; { PL p; M k[3] = {refTensor(g, p, d, "0", true), refTensor(g, p, d, "1", false), refTensor(g, p, d, "2", false)}; double t = g.real(); c.begin(str("tensor functor d=", d, " t=", t, " c=", vh::vec(k[0].a), vh::vec(k[1].a))); PL q(p); Plato::TensorFunctor<d> f(q); cmpF(c, f, d, k, t, "tensor-functor"); PL b(p); b.remove("c011"); c.rejects([&] { Plato::TensorFunctor<d> x(b); }, "tensor-functor-needs-c011"); }
  { PL p; M k = refTensor(g, p, d, "", true); c.begin(str("tensor constant d=", d, " c=", vh::vec(k.a))); PL q(p); Plato::TensorConstant<d> f(q); cmpC(c, f, d, k, "tensor-constant"); PL b(p); b.remove("c11"); c.rejects([&] { Plato::TensorConstant<d> x(b); }, "tensor-constant-needs-c11"); }
  { double v = g.real(), t = g.real(); M k[3] = {M(d, d), M(d, d), M(d, d)}; for (int i = 0; i < d; ++i) k[0](i, i) = v; Plato::TensorFunctor<d> f(v); cmpF(c, f, d, k, t, "tensor-functor-scalar"); Plato::TensorConstant<d> h(v); cmpC(c, h, d, k[0], "tensor-constant-scalar"); M z[3] = {M(d, d), M(d, d), M(d, d)}; Plato::TensorFunctor<d> f0; cmpF(c, f0, d, z, t, "tensor-functor-default-zero"); }
  { PL p; M k[3] = {refVoigt(g, p, d, "0", true), refVoigt(g, p, d, "1", false), refVoigt(g, p, d, "2", false)}; double t = g.real(); c.begin(str("voigt functor d=", d, " t=", t, " c=", vh::vec(k[0].a))); PL q(p); Plato::Rank4VoigtFunctor<d> f(q); cmpF(c, f, nv(d), k, t, "voigt-functor"); PL b(p); b.remove("c011"); c.rejects([&] { Plato::Rank4VoigtFunctor<d> x(b); }, "voigt-functor-needs-c011"); if (d > 1) { PL e(p); e.remove(str("c0", d + 1, d + 1)); c.rejects([&] { Plato::Rank4VoigtFunctor<d> x(e); }, "voigt-functor-needs-shear"); } }
  { PL p; M k = refVoigt(g, p, d, "", true); c.begin(str("voigt constant d=", d, " c=", vh::vec(k.a))); PL q(p); Plato::Rank4VoigtConstant<d> f(q); cmpC(c, f, nv(d), k, "voigt-constant"); PL b(p); b.remove("c11"); c.rejects([&] { Plato::Rank4VoigtConstant<d> x(b); }, "voigt-constant-needs-c11"); if (d > 1) { PL e(p); e.remove(str("c", d + 1, d + 1)); c.rejects([&] { Plato::Rank4VoigtConstant<d> x(e); }, "voigt-constant-needs-shear"); } }
  { double v = nu(g), E[3]; PL p; p.set("Poissons Ratio", v); PL& y = p.sublist("Youngs Modulus"); E[0] = g.pos(); y.set("c0", E[0]); E[1] = opt(g, y, "c1", 0.0); E[2] = opt(g, y, "c2", 0.0); double t = g.real(); c.begin(str("isotropic functor d=", d, " E=", E[0], ",", E[1], ",", E[2], " nu=", v, " t=", t)); M k[3] = {refIso(d, E[0], v), refIso(d, E[1], v), refIso(d, E[2], v)}; Plato::IsotropicStiffnessFunctor<d> f(p); 
    for (int i = 0; i < nv(d); ++i) for (int j = 0; j < nv(d); ++j) { D cc{k[0](i, j), k[1](i, j), k[2](i, j)}; c.close(f(t, i, j), poly(cc, t), "isotropic-functor", 10 * (pmag({k[0](0, 0), k[1](0, 0), k[2](0, 0)}, t)), 1e-12, str(i, ",", j)); }
    PL b(p); b.remove("Poissons Ratio"); c.rejects([&] { Plato::IsotropicStiffnessFunctor<d> x(b); }, "isotropic-functor-needs-poisson"); PL e(p); e.sublist("Youngs Modulus").remove("c0"); c.rejects([&] { Plato::IsotropicStiffnessFunctor<d> x(e); }, "isotropic-functor-needs-c0"); }
  { double v = nu(g), E = g.pos(); PL p; p.set("Poissons Ratio", v); p.set("Youngs Modulus", E); c.begin(str("isotropic constant d=", d, " E=", E, " nu=", v)); Plato::IsotropicStiffnessConstant<d> f(p); M k = refIso(d, E, v); cmpC(c, f, nv(d), k, "isotropic-constant", 1e-11);
    // positive definite, and in uniaxial stress the modulus is E with lateral contraction v (3D)
    if (d == 3) { M A(6, 6); for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) A(i, j) = f(i, j); D b(6, 0.0), x; b[0] = 1; if (c.check(solve(A, b, x), "stiffness-invertible")) { c.close(1 / x[0], E, "uniaxial-modulus", 0, 1e-9); c.close(-x[1] / x[0], v, "uniaxial-contraction", 1, 1e-9); } D en = uni(g, 6); D s = mulv(A, en); double w = 0; for (int i = 0; i < 6; ++i) w += en[i] * s[i]; c.check(w > 0, "stiffness-positive-definite", str(w)); }
    PL b(p); b.remove("Poissons Ratio"); c.rejects([&] { Plato::IsotropicStiffnessConstant<d> x(b); }, "isotropic-constant-needs-poisson"); PL e(p); e.remove("Youngs Modulus"); c.rejects([&] { Plato::IsotropicStiffnessConstant<d> x(e); }, "isotropic-constant-needs-young");
    double K = Plato::compute_bulk_modulus(E, v), G = Plato::compute_shear_modulus(E, v); c.close(K, E / 3 / (1 - 2 * v), "bulk-modulus", 0, 1e-12); c.close(G, E / 2 / (1 + v), "shear-modulus", 0, 1e-12); c.close(9 * K * G / (3 * K + G), E, "moduli-consistent", 0, 1e-9);
    PL in; PL& mm = in.sublist("Material Model").sublist("Isotropic Linear Elastic"); mm.set("Youngs Modulus", E); mm.set("Poissons Ratio", v); c.close(Plato::compute_bulk_modulus(in), K, "bulk-modulus-from-input", 0, 1e-12); c.close(Plato::compute_shear_modulus(in), G, "shear-modulus-from-input", 0, 1e-12); PL mcopy(mm); c.close(Plato::parse_elastic_modulus(mcopy), E, "parse-elastic-modulus", 0, 0); c.close(Plato::parse_poissons_ratio(mcopy), v, "parse-poissons-ratio", 0, 0);
    for (int w = 0; w < 2; ++w) { PL i2(in); i2.sublist("Material Model").sublist("Isotropic Linear Elastic").remove(w ? "Youngs Modulus" : "Poissons Ratio"); c.rejects([&] { Plato::compute_bulk_modulus(i2); }, "bulk-modulus-missing-input"); c.rejects([&] { Plato::compute_shear_modulus(i2); }, "shear-modulus-missing-input"); } PL i3; i3.sublist("Material Model"); c.rejects([&] { Plato::compute_bulk_modulus(i3); }, "bulk-modulus-missing-model"); c.rejects([&] { Plato::compute_shear_modulus(i3); }, "shear-modulus-missing-model"); } }
VH_GROUP(tensor_laws) { for (int i = 0; i < c.n(150, 4000); ++i) { tensors<1>(c); tensors<2>(c); tensors<3>(c); } }
// ---- model classes and factories
static void mark(Rng& g, PL& p, bool nl) { if (nl) p.set("Temperature Dependent", true); else if (g.coin()) p.set("Temperature Dependent", false); }
template <int d> static void models(Ctx& c) { auto& g = c.rng; bool nl = g.coin(); const int n = g.num(6);
  D T = rnd(g, n), gr = rnd(g, n * d), rate = rnd(g, n); V1 tv = mk1(T), rv = mk1(rate); V2 gv = mk2(gr, n, d);
  { PL top; PL& ms = top.sublist("Material Models").sublist("steel"); PL& p = ms.sublist("Thermal Conduction"); mark(g, p, nl); M k[3] = {M(d, d), M(d, d), M(d, d)}; bool scal = g.coin(0.4); if (scal) { double v = g.real(); p.set("Thermal Conductivity", v); for (int i = 0; i < d; ++i) k[0](i, i) = v; } else { PL& s = p.sublist("Thermal Conductivity"); if (nl) { k[0] = refTensor(g, s, d, "0", true); k[1] = refTensor(g, s, d, "1", false); k[2] = refTensor(g, s, d, "2", false); } else k[0] = refTensor(g, s, d, "", true); }
    c.begin(str("conduction d=", d, " nonlinear=", nl, " scalar=", scal, " k=", vh::vec(k[0].a), " T=", T[0])); Plato::ThermalConductionModelFactory<d> fac(top); auto m = fac.create("steel"); c.check((m->type() == Plato::MaterialModelType::Nonlinear) == nl, "conduction-model-type"); Plato::ThermalFlux<d> fl(m); V2 q("q", n, d); for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) q(i, j) = 99;
    for (int i = 0; i < n; ++i) { fl(i, q, gv, tv); for (int a = 0; a < d; ++a) { double w = 0, mg = 0; for (int b = 0; b < d; ++b) { D cc{k[0](a, b), k[1](a, b), k[2](a, b)}; w -= gr[i * d + b] * poly(cc, T[i]); mg += std::fabs(gr[i * d + b]) * pmag(cc, T[i]); } c.close(q(i, a), w, "fourier-law", mg, 1e-12); } for (int j = i + 1; j < n; ++j) c.check(q(j, 0) == 99, "flux-other-cell"); }
    if (!nl) { V2 q2("q", n, d); for (int i = 0; i < n; ++i) { fl(i, q2, gv); for (int a = 0; a < d; ++a) c.close(q2(i, a), q(i, a), "fourier-law-linear-overload", std::fabs(q(i, a)) + amax(k[0].a) * amax(gr), 1e-12); } }
    c.rejects([&] { fac.create("wood"); }, "conduction-unknown-material"); PL t2; t2.sublist("Material Models").sublist("steel"); Plato::ThermalConductionModelFactory<d> f2(t2); c.rejects([&] { f2.create("steel"); }, "conduction-missing-list"); PL t3; t3.sublist("Material Models").sublist("steel").sublist("Thermal Conduction"); Plato::ThermalConductionModelFactory<d> f3(t3); c.rejects([&] { f3.create("steel"); }, "conduction-missing-conductivity"); PL t4; Plato::ThermalConductionModelFactory<d> f4(t4); c.check(f4.create("steel").is_null(), "conduction-no-models-null"); }
  { PL top; PL& p = top.sublist("Material Models").sublist("steel").sublist("Thermal Mass"); mark(g, p, nl); D rho(3, 0.0), cp(3, 0.0); auto put = [&](const char* nm, D& k) { if (nl && g.coin(0.7)) { PL& s = p.sublist(nm); k[0] = g.real(); s.set("c0", k[0]); k[1] = opt(g, s, "c1", 0.0); k[2] = opt(g, s, "c2", 0.0); } else { k[0] = g.real(); p.set(nm, k[0]); } }; put("Mass Density", rho); put("Specific Heat", cp);
    c.begin(str("thermal mass d=", d, " nonlinear=", nl, " rho=", vh::vec(rho), " cp=", vh::vec(cp), " T=", T[0])); Plato::ThermalMassModelFactory<d> fac(top); auto m = fac.create("steel"); Plato::ThermalContent<d> tc(m); V1 o("o", n); for (int i = 0; i < n; ++i) { tc(i, o, rv, tv); c.close(o(i), rate[i] * poly(rho, T[i]) * poly(cp, T[i]), "thermal-content", std::fabs(rate[i]) * pmag(rho, T[i]) * pmag(cp, T[i]), 1e-12); }
    if (!nl) { V1 o2("o", n); for (int i = 0; i < n; ++i) { tc(i, o2, rv); c.close(o2(i), o(i), "thermal-content-linear-overload", 0, 1e-12); } PL bad(top); PL& b = bad.sublist("Material Models").sublist("steel").sublist("Thermal Mass"); b.remove("Mass Density"); b.sublist("Mass Density").set("c0", 1.0); Plato::ThermalMassModelFactory<d> fb(bad); c.rejects([&] { fb.create("steel"); }, "temperature-dependent-scalar-in-linear-model"); }
    c.rejects([&] { fac.create("wood"); }, "mass-unknown-material"); for (const char* nm : {"Mass Density", "Specific Heat"}) { PL bad(top); bad.sublist("Material Models").sublist("steel").sublist("Thermal Mass").remove(nm); Plato::ThermalMassModelFactory<d> fb(bad); c.rejects([&] { fb.create("steel"); }, "mass-missing-scalar"); } PL t2; t2.sublist("Material Models").sublist("steel"); Plato::ThermalMassModelFactory<d> f2(t2); c.rejects([&] { f2.create("steel"); }, "mass-missing-list"); PL t4; Plato::ThermalMassModelFactory<d> f4(t4); c.check(f4.create("steel").is_null(), "mass-no-models-null"); }
  { PL top; PL& p = top.sublist("Material Models").sublist("steel").sublist("Thermoelastic"); mark(g, p, nl); int kind = g.in(0, 1 + (nl ? 1 : 0)); M k[3] = {M(nv(d), nv(d)), M(nv(d), nv(d)), M(nv(d), nv(d))}; PL& es = p.sublist("Elastic Stiffness");
    if (kind == 0) { if (nl) { for (int q = 0; q < 3; ++q) k[q] = refVoigt(g, es, d, str(q), q == 0); } else k[0] = refVoigt(g, es, d, "", true); } else { double v = nu(g); es.set("Poissons Ratio", v); if (kind == 1) { double E = g.pos(); es.set("Youngs Modulus", E); k[0] = refIso(d, E, v); } else { PL& y = es.sublist("Youngs Modulus"); double E0 = g.pos(); y.set("c0", E0); double E1 = opt(g, y, "c1", 0.0), E2 = opt(g, y, "c2", 0.0); k[0] = refIso(d, E0, v); k[1] = refIso(d, E1, v); k[2] = refIso(d, E2, v); } }
    M al[3] = {M(d, d), M(d, d), M(d, d)}, ko[3] = {M(d, d), M(d, d), M(d, d)}; auto tens = [&](const char* nm, M* o) { if (g.coin(0.4)) { double v = g.real(); p.set(nm, v); for (int i = 0; i < d; ++i) o[0](i, i) = v; } else { PL& s = p.sublist(nm); if (nl) for (int q = 0; q < 3; ++q) o[q] = refTensor(g, s, d, str(q), q == 0); else o[0] = refTensor(g, s, d, "", true); } }; tens("Thermal Expansivity", al); tens("Thermal Conductivity", ko); double rt = opt(g, p, "Reference Temperature", 23.0), ts = opt(g, p, "Temperature Scaling", 1.0);
    c.begin(str("thermoelastic d=", d, " nonlinear=", nl, " kind=", kind, " c=", vh::vec(k[0].a), " rt=", rt)); Plato::ThermoelasticModelFactory<d> fac(top); auto m = fac.create("steel"); c.close(m->getScalarConstant("Reference Temperature"), rt, "reference-temperature", 0, 0); c.close(m->getScalarConstant("Temperature Scaling"), ts, "temperature-scaling", 0, 0);
    if (nl) { double t = g.real(); auto f = m->getRank4VoigtFunctor("Elastic Stiffness"); auto a = m->getTensorFunctor("Thermal Expansivity"); auto b = m->getTensorFunctor("Thermal Conductivity"); double sc = pmag({amax(k[0].a), amax(k[1].a), amax(k[2].a)}, t); for (int i = 0; i < nv(d); ++i) for (int j = 0; j < nv(d); ++j) c.close(f(t, i, j), poly({k[0](i, j), k[1](i, j), k[2](i, j)}, t), "thermoelastic-stiffness-functor", sc, 1e-11); cmpF(c, a, d, al, t, "expansivity-functor"); cmpF(c, b, d, ko, t, "conductivity-functor"); }
    else { auto f = m->getRank4VoigtConstant("Elastic Stiffness"); auto a = m->getTensorConstant("Thermal Expansivity"); auto b = m->getTensorConstant("Thermal Conductivity"); cmpC(c, f, nv(d), k[0], "thermoelastic-stiffness", 1e-11); cmpC(c, a, d, al[0], "expansivity"); cmpC(c, b, d, ko[0], "conductivity"); PL bad(top); PL& e = bad.sublist("Material Models").sublist("steel").sublist("Thermoelastic").sublist("Elastic Stiffness"); e.remove("Youngs Modulus", false); e.set("Poissons Ratio", 0.3); e.sublist("Youngs Modulus").set("c0", 1.0); Plato::ThermoelasticModelFactory<d> fb(bad); c.rejects([&] { fb.create("steel"); }, "temperature-dependent-modulus-in-linear-model"); }
    for (const char* nm : {"Thermal Expansivity", "Thermal Conductivity", "Elastic Stiffness"}) { PL bad(top); bad.sublist("Material Models").sublist("steel").sublist("Thermoelastic").remove(nm); Plato::ThermoelasticModelFactory<d> fb(bad); c.rejects([&] { fb.create("steel"); }, "thermoelastic-missing-input", nm); } c.rejects([&] { fac.create("wood"); }, "thermoelastic-unknown-material"); PL t2; t2.sublist("Material Models").sublist("steel"); Plato::ThermoelasticModelFactory<d> f2(t2); c.rejects([&] { f2.create("steel"); }, "thermoelastic-missing-list"); PL t4; Plato::ThermoelasticModelFactory<d> f4(t4); c.check(f4.create("steel").is_null(), "thermoelastic-no-models-null"); }
  // the generic accessors keep constants and functors of different names apart
  { Plato::MaterialModel<d> m; std::map<std::string, double> ref; c.begin(str("accessors d=", d, " n=", n, " T=", T[0])); for (int i = 0; i < 6; ++i) { std::string nm = str("p", g.in(0, 3)); double v = g.real(); m.setScalarConstant(nm, v); m.setScalarFunctor(nm, Plato::ScalarFunctor(v + 1)); m.setTensorConstant(nm, Plato::TensorConstant<d>(v + 2)); m.setTensorFunctor(nm, Plato::TensorFunctor<d>(v + 3)); ref[nm] = v; } for (auto& kv : ref) { c.check(m.getScalarConstant(kv.first) == kv.second, "scalar-constant-stored"); c.check(m.getScalarFunctor(kv.first)(0.0) == kv.second + 1, "scalar-functor-stored"); c.check(m.getTensorConstant(kv.first)(d - 1, d - 1) == kv.second + 2, "tensor-constant-stored"); c.check(m.getTensorFunctor(kv.first)(0.0, 0, 0) == kv.second + 3, "tensor-functor-stored"); }
    PL p; double v = g.real(); p.set("a", v); p.set("i", 3); m.parseScalarConstant("a", p); c.check(m.getScalarConstant("a") == v, "parse-scalar-constant"); c.rejects([&] { m.parseScalarConstant("b", p); }, "parse-scalar-constant-missing"); c.rejects([&] { m.parseScalar("b", p); }, "parse-scalar-missing"); c.rejects([&] { m.parseTensor("b", p); }, "parse-tensor-missing"); c.rejects([&] { m.parseRank4Voigt("b", p); }, "parse-voigt-missing"); m.parseScalarConstant("b", p, v + 1); c.check(m.getScalarConstant("b") == v + 1, "parse-scalar-constant-default"); } }
VH_GROUP(models_1d) { for (int i = 0; i < c.n(80, 2000); ++i) models<1>(c); }
VH_GROUP(models_2d) { for (int i = 0; i < c.n(80, 2000); ++i) models<2>(c); }
VH_GROUP(models_3d) { for (int i = 0; i < c.n(80, 2000); ++i) models<3>(c); }
