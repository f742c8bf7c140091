// C06: an accepted expression evaluates to the value the written formula denotes; a malformed one is an error.
#include "vh.hpp"
#include "ExpressionEvaluator.hpp"
#include "CustomMaterial.hpp"
#include "PlatoTypes.hpp"
#include "PlatoMathExpr.hpp"
#include <fstream>
#include <memory>
using namespace vh;
namespace {
struct Ast { char op; double num = 0; std::string var; std::shared_ptr<Ast> l, r; };
using P = std::shared_ptr<Ast>;
// op: '#' number 'v' variable '+-*/^' binary, 'm' unary minus, 'p' unary plus, '!' factorial, 's' 'c' 't' 'e' 'l' 'q' 'a' functions, '|' bars, 'w' pow(,), 'P' PI, 'i' implicit mult
std::map<std::string, double> VARS;
double ev(const P& a) {
  switch (a->op) {
    case '#': return a->num; case 'P': return M_PI; case 'v': return VARS[a->var];
    case '+': return ev(a->l) + ev(a->r); case '-': return ev(a->l) - ev(a->r);
    case '*': case 'i': return ev(a->l) * ev(a->r);
    case '/': { double d = ev(a->r), n = ev(a->l); return d == 0 ? 0.0 : n / d; }
    case '^': case 'w': return std::pow(ev(a->l), ev(a->r));
    case 'm': return -ev(a->l); case 'p': return ev(a->l);
    case '!': { double x = ev(a->l), r = 1; for (double i = 1; i <= x; ++i) r *= i; return r; }
    case 's': return std::sin(ev(a->l)); case 'c': return std::cos(ev(a->l)); case 't': return std::tan(ev(a->l));
    case 'e': return std::exp(ev(a->l)); case 'l': return std::log(ev(a->l)); case 'q': return std::sqrt(ev(a->l));
    case 'a': case '|': return std::fabs(ev(a->l));
  }
  return 0;
}
// amplification: sum of magnitudes, used only to keep ill-conditioned comparisons out
bool fine(const P& a) {
  if (a->l && !fine(a->l)) return false; if (a->r && !fine(a->r)) return false;
  double x = ev(a); if (!std::isfinite(x) || std::fabs(x) > 1e8) return false;
  if (a->op == '/') { double d = ev(a->r); if (d != 0 && std::fabs(d) < 1e-3) return false; }
  if (a->op == '/' && ev(a->r) == 0) { return a->r->op == '#'; } // exact zero only when written as a literal
  if (a->op == 't' && std::fabs(std::cos(ev(a->l))) < 1e-2) return false;
  if ((a->op == 's' || a->op == 'c' || a->op == 't') && std::fabs(ev(a->l)) > 1e3) return false;
  if (a->op == 'e' && std::fabs(ev(a->l)) > 15) return false;
  if (a->op == 'l' && ev(a->l) < 1e-3) return false;
  if (a->op == 'q' && ev(a->l) < 1e-6 && ev(a->l) != 0) return false;
  if (a->op == '^' || a->op == 'w') { double b = ev(a->l), e = ev(a->r); if (std::fabs(e) > 6) return false;
    if (b < 0 && a->r->op != '#' && !(a->r->op == 'm' && a->r->l->op == '#')) return false;
    if (std::fabs(b) < 1e-2) return false; }
  if (a->op == '!') { if (a->l->op != '#' ) return false; }
  return true;
}
P mk(char o, P l = nullptr, P r = nullptr) { auto p = std::make_shared<Ast>(); p->op = o; p->l = l; p->r = r; return p; }
P gen(Rng& g, int d) {
  if (d <= 0 || g.coin(0.12)) {
    int k = g.in(0, 5);
    if (k == 0) return mk('P');
    if (k <= 2) { auto p = mk('v'); std::vector<std::string> n; for (auto& q : VARS) n.push_back(q.first); p->var = g.pick(n); return p; }
    auto p = mk('#'); switch (g.in(0, 4)) { case 0: p->num = g.in(0, 9); break; case 1: p->num = std::floor(g.uni(0, 1000)) / 8; break; case 2: p->num = g.in(1, 99) * 1e-3; break;
      case 3: p->num = g.in(1, 9) * 1e2; break; default: p->num = g.uni(0.01, 5); } return p;
  }
  switch (g.in(0, 17)) {
    case 0: case 1: return mk('+', gen(g, d - 1), gen(g, d - 1));
    case 2: case 3: return mk('-', gen(g, d - 1), gen(g, d - 1));
    case 4: case 5: return mk('*', gen(g, d - 1), gen(g, d - 1));
    case 6: case 7: return mk('/', gen(g, d - 1), gen(g, d - 1));
    case 8: case 9: return mk('^', gen(g, d - 1), gen(g, d - 1));
    case 10: return mk('m', gen(g, d - 1));
    case 11: return mk('p', gen(g, d - 1));
    case 12: { auto p = mk('#'); p->num = g.in(0, 9); return mk('!', p); }
    case 13: return mk("sctelqa"[g.in(0, 6)], gen(g, d - 1));
    case 14: return mk('|', gen(g, d - 1));
    case 15: return mk('w', gen(g, d - 1), gen(g, d - 1));
    case 16: return mk('i', gen(g, d - 1), gen(g, d - 1));
    default: return mk("sctelqa"[g.in(0, 6)], gen(g, d - 1));
  }
}
// precedence: + - 2, * / 3, ^ 4, unary 5, ! 6, atoms 7
int prec(char o) { switch (o) { case '+': case '-': return 2; case '*': case '/': case 'i': return 3; case '^': return 4; case 'm': case 'p': return 5; case '!': return 6; } return 7; }
std::string num(double x, Rng& g) { char b[64]; if (x == std::floor(x) && g.coin()) { snprintf(b, 64, "%.0f", x); return b; }
  if (g.coin(0.3) && x != 0) { snprintf(b, 64, "%.17e", x); std::string s = b; if (g.coin()) { auto p = s.find("e+"); if (p != std::string::npos) s.erase(p + 1, 1); } return s; }
  snprintf(b, 64, "%.20f", x); return b; }
std::string sp(Rng& g) { return g.coin(0.25) ? std::vector<std::string>{" ", "  ", "\t", "\n", "\r\n"}[g.in(0, 4)] : ""; }
// bars: true when directly inside an open |...| at this parenthesis level (a nested bar must then be parenthesised)
std::string pr(const P& a, Rng& g, bool inbar);
std::string par(const P& a, Rng& g) { return "(" + sp(g) + pr(a, g, false) + sp(g) + ")"; }
std::string sub(const P& a, Rng& g, int minprec, bool inbar) { if (prec(a->op) < minprec || g.coin(0.15)) return par(a, g); return pr(a, g, inbar); }
bool startsSign(const P& a) { if (a->op == 'm' || a->op == 'p') return true; if (prec(a->op) < 7 && a->l && a->op != 'i') return startsSign(a->l); return false; }
std::string pr(const P& a, Rng& g, bool inbar) {
  auto f = [&](const char* n) { return std::string(n) + sp(g) + par(a->l, g); };
  switch (a->op) {
    case '#': return num(a->num, g); case 'P': return "PI"; case 'v': return a->var;
    case '+': case '-': { std::string R = startsSign(a->r) && g.coin(0.8) ? par(a->r, g) : sub(a->r, g, 3, inbar); return sub(a->l, g, 2, inbar) + sp(g) + a->op + sp(g) + R; }
    case '*': case '/': return sub(a->l, g, 3, inbar) + sp(g) + a->op + sp(g) + sub(a->r, g, 4, inbar);
    case 'i': return par(a->l, g) + sp(g) + par(a->r, g);
    case '^': return sub(a->l, g, 5, inbar) + sp(g) + "^" + sp(g) + sub(a->r, g, 4, inbar);
    case 'm': case 'p': { std::string s = a->op == 'm' ? "-" : "+"; return (startsSign(a->l)) ? s + par(a->l, g) : s + sp(g) + sub(a->l, g, 6, inbar); }
    case '!': return sub(a->l, g, 6, inbar) + sp(g) + "!";
    case 's': return f("sin"); case 'c': return f("cos"); case 't': return f("tan"); case 'e': return f("exp"); case 'l': return f("log"); case 'q': return f("sqrt"); case 'a': return f("abs");
    case '|': { std::string s = "|" + sp(g) + pr(a->l, g, true) + sp(g) + "|"; return inbar ? "(" + s + ")" : s; }
    case 'w': return "pow" + sp(g) + "(" + sp(g) + pr(a->l, g, false) + sp(g) + "," + sp(g) + pr(a->r, g, false) + sp(g) + ")";
  }
  return "";
}
Teuchos::ParameterList plist() { Teuchos::ParameterList l; for (auto& v : VARS) l.set<double>(v.first, v.second); return l; }
void setvars(Rng& g) { VARS.clear(); static const std::vector<std::string> nm = {"E", "v", "X_0", "X_1", "x", "nu", "_k", "Young", "a1b2", "T"};
  for (auto& n : nm) if (g.coin(0.8)) VARS[n] = g.coin(0.2) ? -g.uni(0.1, 3) : g.uni(0.1, 3); VARS["E"] = g.uni(0.1, 10); }
double run(const Teuchos::ParameterList& l, const std::string& s) {
  Plato::ExpressionEvaluator e(l); e.parse_expression(s.c_str()); if (e.validate_expression() != 0) throw std::runtime_error("invalid"); return e.evaluate_expression(); }
std::string heapstr_eval(Ctx& c, const Teuchos::ParameterList& l, const std::string& s, double& v) {
  // exact-size heap copy: a read past the terminating NUL is an ASan report
  std::unique_ptr<char[]> p(new char[s.size() + 1]); memcpy(p.get(), s.c_str(), s.size() + 1);
  try { Plato::ExpressionEvaluator e(l); e.parse_expression(p.get()); if (e.validate_expression() != 0) return "invalid"; v = e.evaluate_expression(); return ""; }
  catch (const std::exception& x) { return x.what(); }
}
struct CM : Plato::CustomMaterial { CM(const Teuchos::ParameterList& l) : Plato::CustomMaterial(l) {}
  double a(const Teuchos::ParameterList& l, std::string n) { return GetCustomExpressionValue(l, n); }
  double b(const Teuchos::ParameterList& l) { return GetCustomExpressionValue(l); }
  double b(const Teuchos::ParameterList& l, int i) { return GetCustomExpressionValue(l, i); }
  double b(const Teuchos::ParameterList& l, int i, std::string n) { return GetCustomExpressionValue(l, i, n); } };
} // namespace

VH_GROUP(expression_value) {
  for (int k = 0; k < c.n(6000, 120000); ++k) {
    setvars(c.rng); P a; int tries = 0; do { a = gen(c.rng, c.rng.in(1, 5)); } while (!fine(a) && ++tries < 200); if (!fine(a)) continue;
    std::string s = pr(a, c.rng, false); if (s.size() > 1500) continue;
    c.begin(s, a->op != '#'); auto l = plist(); double v = 0; std::string err = heapstr_eval(c, l, s, v);
    if (!c.check(err.empty(), "expr-valid-accepted", "valid expression rejected: " + s + " : " + err.substr(0, 300))) continue;
    double w = ev(a); c.close(v, w, "expr-value", 1e-2, 1e-7, s);
    double v2 = 0; heapstr_eval(c, l, s, v2); c.check(memcmp(&v, &v2, 8) == 0, "expr-deterministic", s);
  }
}
VH_GROUP(expression_precision) { // small expressions, tight tolerance
  for (int k = 0; k < c.n(3000, 60000); ++k) {
    setvars(c.rng); P a = gen(c.rng, 2); if (!fine(a)) continue; std::string s = pr(a, c.rng, false); c.begin(s, a->op != '#');
    double v = 0; std::string err = heapstr_eval(c, plist(), s, v); if (!c.check(err.empty(), "expr-valid-accepted", s + " : " + err.substr(0, 300))) continue;
    double w = ev(a), sc = 0; if (a->l) sc = std::max(sc, std::fabs(ev(a->l))); if (a->r) sc = std::max(sc, std::fabs(ev(a->r)));
    if (a->l && a->l->l) for (auto q : {a->l->l, a->l->r}) if (q) sc = std::max(sc, std::fabs(ev(q)));
    if (a->r && a->r->l) for (auto q : {a->r->l, a->r->r}) if (q) sc = std::max(sc, std::fabs(ev(q)));
    c.close(v, w, "expr-value", sc * 10, 1e-11, s);
  }
}
VH_GROUP(expression_identities) { // written laws of precedence and associativity
  auto& g = c.rng;
  for (int k = 0; k < c.n(300, 5000); ++k) {
    setvars(g); VARS["a"] = g.uni(0.5, 3); VARS["b"] = g.uni(0.5, 3); VARS["d"] = g.uni(0.5, 3); auto l = plist(); double A = VARS["a"], B = VARS["b"], D = VARS["d"];
    struct T { const char* s; double w; } t[] = {
      {"a-b-d", A - B - D}, {"a/b/d", A / B / D}, {"a-b+d", A - B + D}, {"a/b*d", A / B * D}, {"a*b/d", A * B / D}, {"a^b^d", std::pow(A, std::pow(B, D))}, {"(a^b)^d", std::pow(std::pow(A, B), D)},
      {"a+b*d", A + B * D}, {"a*b+d", A * B + D}, {"a*b^d", A * std::pow(B, D)}, {"a^b*d", std::pow(A, B) * D}, {"-a+b", -A + B}, {"-a*b", -A * B}, {"a*-b", -A * B}, {"a^-b", std::pow(A, -B)},
      {"(-2)^2", 4}, {"a-(b-d)", A - (B - D)}, {"a/(b/d)", A / (B / D)}, {"a/(b*d)", A / (B * D)}, {"a/(b)(d)", A / B * D}, {"(a)(b)", A * B}, {"(a+b)(a-d)(b)", (A + B) * (A - D) * B},
      {"3!", 6}, {"3!!", 720}, {"2^3!", 64}, {"-3!", -6}, {"0!", 1}, {"1!", 1}, {"5!/3!", 20}, {"3!+2", 8}, {"3!-2", 4}, {"2*4!", 48},
      {"pow(a,b)", std::pow(A, B)}, {"pow(a+b,d)", std::pow(A + B, D)}, {"pow(a,b+d)", std::pow(A, B + D)}, {"pow(a,b*d)", std::pow(A, B * D)}, {"pow(a*b,d)", std::pow(A * B, D)}, {"pow(a,-b)", std::pow(A, -B)},
      {"pow(a-b*d+9,2)", std::pow(A - B * D + 9, 2)}, {"pow(pow(a,b),d)", std::pow(std::pow(A, B), D)}, {"pow(a,pow(b,d))", std::pow(A, std::pow(B, D))}, {"1+pow(a,b)*2", 1 + std::pow(A, B) * 2}, {"pow(a,b)^d", std::pow(std::pow(A, B), D)},
      {"pow(a,b^d)", std::pow(A, std::pow(B, D))}, {"pow(a^b,d)", std::pow(std::pow(A, B), D)}, {"pow(a,b/d)", std::pow(A, B / D)}, {"pow(a/b,d-1)", std::pow(A / B, D - 1)}, {"-pow(a,b)", -std::pow(A, B)},
      {"sin(a)^2+cos(a)^2", 1}, {"tan(a/4)", std::tan(A / 4)}, {"exp(log(a))", A}, {"sqrt(a*a)", A}, {"abs(-a)", A}, {"abs(a-b)", std::fabs(A - B)}, {"|a-b|", std::fabs(A - B)}, {"|a-b|*|b-d|", std::fabs(A - B) * std::fabs(B - D)}, {"|(|a-b|)-d|", std::fabs(std::fabs(A - B) - D)},
      {"2*|a-b|^2", 2 * (A - B) * (A - B)}, {"|-a|+b", A + B}, {"|a-b|-d", std::fabs(A - B) - D}, {"(|a-b|)(d)", std::fabs(A - B) * D}, {"PI*a", M_PI * A}, {"cos(PI)", -1}, {"log(exp(1))", 1}, {"exp(0)", 1}, {"1e3*a", 1e3 * A}, {"1.5e-2+a", 1.5e-2 + A}, {"2e+2", 200}, {"a/0", 0},
      {"E/((1.0+v)(1.0-2.0*v))", 0}, {"(X_1)(X_1) + (X_0)(X_0)", 0}, {"((((a))))", A}, {" a ", A}, {"+a", A}, {"-(-a)", A}, {"a--b", A + B}, {"a+-b", A - B}, {"20!", 2432902008176640000.0}, {"21!", 51090942171709440000.0}, {"25!", 15511210043330985984000000.0}};
    for (auto& q : t) {
      double w = q.w; std::string s = q.s;
      if (s[0] == 'E') { if (!VARS.count("v")) continue; double V = VARS["v"]; double den = (1.0 + V) * (1.0 - 2.0 * V); if (std::fabs(den) < 1e-6) continue; w = VARS["E"] / den; }
      if (s.substr(0, 4) == "(X_1") { if (!VARS.count("X_0") || !VARS.count("X_1")) continue; w = VARS["X_1"] * VARS["X_1"] + VARS["X_0"] * VARS["X_0"]; }
      c.begin(str(s, " a=", A, " b=", B, " d=", D)); double v = 0; std::string err = heapstr_eval(c, l, s, v);
      if (!c.check(err.empty(), "expr-law-accepted", s + " : " + err.substr(0, 300))) continue; c.close(v, w, "expr-law-value", 1e-3, 1e-11, s);
    }
  }
}
VH_GROUP(expression_rejects) {
  auto& g = c.rng; setvars(g); VARS["x"] = 2; VARS["y"] = 3; auto l = plist();
  static const std::vector<std::string> bad = {"", " ", "()", "(", ")", "x+", "*x", "x*", "/x", "x/", "^x", "x^", "x y", "2 x", "x 2", "2 3", "(x", "x)", "((x)", "(x))", "|x", "x|", "|x|y", "x|y|", "||", "sin", "sin()", "cos", "sqrt", "sqrt()", "log()", "exp", "tan", "abs",
    "sin x +", "x sin(y)", "x(y)", "(x)y", "x!y", "!x", "!", "x**y", "x+*y", "x//y", "x^^y", "x^*y", "--x", "+-x", "-+x", "x+--y", "pow", "pow()", "pow(x)", "pow(x,)", "pow(,y)", "pow(x,y,x)", "x,y", ",", "(x,y)", "x$y", "x=y", "x;y", "@", "x#", "[x]", "{x}", "x%y", "x&y", "~x", "\"x\"", "x:y", "x<y", "(|x)|", "|(x|)", "(x|)", "(x+|y)",
    "1.2.3", "1e5e7", "1e", "1e+", "2e-+1", "1..2", "x PI", "PI x", "PI PI", "2(3)", "2sin(x)", "(x)sin(y)", "sqr", "sqr(x)", "si", "po", "lo", "|x|2", "x()", "()x", "(())", "x+()", "sin(+)", "(-)", "-", "+", "x+y)", "(x+y"};
  for (auto& b : bad) for (int r = 0; r < 3; ++r) {
    std::string s = b; if (r == 1) s = "x+" + b; if (r == 2) s = b + " "; 
    if (r == 1 && (b == "-" || b == "+" || b.empty() || b[0] == '-' || b[0] == '+' || b == " ")) { if (b.size() > 1 && b[1] != '-' && b[1] != '+' ) continue; }
    if (r == 1 && (b == "PI x" )) s = "x+PI x";
    c.begin("reject:" + s + ";"); double v = 0; std::string err = heapstr_eval(c, l, s, v);
    c.check(!err.empty(), "expr-malformed-rejected", str("malformed expression accepted: '", s, "' -> ", v));
  }
  // unknown variables
  for (auto s : {"q", "x+qq", "sin(zz)", "x_", "X", "xx"}) { c.begin(str("unknown variable ", s)); c.rejects([&] { run(l, s); }, "expr-unknown-variable-rejected", s); }
  // delete one parenthesis/bar or one operand of a valid expression
  for (int k = 0; k < c.n(2000, 40000); ++k) {
    setvars(g); P a = gen(g, g.in(1, 4)); std::string s = pr(a, g, false); if (s.size() > 800) continue;
    std::string t = s; std::vector<size_t> pos; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '(' || s[i] == ')') pos.push_back(i);
    int kind = g.in(0, 4);
    if (kind == 0) { if (pos.empty()) continue; t.erase(g.pick(pos), 1); }
    else if (kind == 1) t += "*"; else if (kind == 2) t = "/" + t; else if (kind == 3) t += ")"; else t.insert(g.in(0, (int)t.size()), 1, "$@#=&%;:?\\'\""[g.in(0, 11)]);
    c.begin("mut:" + t); double v = 0; std::string err = heapstr_eval(c, plist(), t, v); c.check(!err.empty(), "expr-malformed-rejected", str("accepted '", t, "' -> ", v));
  }
}
VH_GROUP(expression_limits) { // names and numbers around the 128-character limit; long and deep expressions; random bytes
  auto& g = c.rng;
  for (int n = 120; n <= 140; ++n) for (int k = 0; k < 3; ++k) {
    std::string name(n, 'z'); Teuchos::ParameterList l; l.set<double>(name, 7.5); c.begin(str("name length ", n, " kind ", k)); double v = 0;
    std::string s = k == 0 ? name : k == 1 ? std::string("1.") + std::string(n - 2, '5') : std::string("0.") + std::string(n - 6, '3') + "e-05"; std::string err = heapstr_eval(c, l, s, v);
    if (n < 126) { if (c.check(err.empty(), "expr-long-accepted", s)) c.close(v, k == 0 ? 7.5 : std::strtod(s.c_str(), nullptr), "expr-long-value", 0, 1e-14); }
    else c.check(!err.empty() || Ctx::close_(v, k == 0 ? 7.5 : std::strtod(s.c_str(), nullptr), 1e-14, 0), "expr-overlong-rejected-or-exact", str("length ", n, " gives ", v));
  }
  for (int d : {1, 10, 100, 1000, 3000}) {
    Teuchos::ParameterList l; l.set<double>("x", 1.25); c.begin(str("depth ", d)); double v = 0; std::string s = std::string(d, '(') + "x" + std::string(d, ')'); std::string e = heapstr_eval(c, l, s, v);
    c.check(e.empty() && v == 1.25, "expr-depth", str(d, " ", e.substr(0, 100))); std::string q = "x"; for (int i = 0; i < d; ++i) q += "+x"; e = heapstr_eval(c, l, q, v); c.check(e.empty() && std::fabs(v - 1.25 * (d + 1)) < 1e-9 * (d + 1), "expr-length", str(d)); }
  static const char* alpha = "0123456789.eExXyv_+-*/^!()|, \tsincotaqrpwlbgPI"; int na = strlen(alpha);
  for (int k = 0; k < c.n(20000, 400000); ++k) { // no crash, no hang, no uninitialised value; error or a finite deterministic answer
    std::string s; int n = g.in(1, 24); for (int i = 0; i < n; ++i) s += alpha[g.in(0, na - 1)]; Teuchos::ParameterList l; l.set<double>("x", 1.5); l.set<double>("v", 0.25); c.begin("bytes:" + s);
    double v = 0, w = 1; std::string e = heapstr_eval(c, l, s, v), f = heapstr_eval(c, l, s, w); c.check(e.empty() == f.empty() && (!e.empty() || memcmp(&v, &w, 8) == 0 || (v != v && w != w)), "expr-bytes-deterministic", s); }
  for (double n : {0., 1., 5., 12., 13., 20., 21., 22., 30., 100., 170., 171., 500., 1e6, 1e18, 1e300}) { Teuchos::ParameterList l; l.set<double>("n", n); c.begin(str("factorial ", n)); double v = 0; std::string e = heapstr_eval(c, l, "n!", v); if (!e.empty()) { c.check(n > 170, "factorial-accepted", str(n)); continue; }
    double w = std::tgamma(n + 1); if (std::isinf(w)) c.check(std::isinf(v), "factorial-overflow", str(n, " gives ", v)); else c.close(v, w, "factorial-value", 0, 1e-11, str(n)); }
}
VH_GROUP(expression_state) { // one evaluator object reused: no state leaks from an earlier (good or bad) expression
  auto& g = c.rng;
  for (int k = 0; k < c.n(400, 8000); ++k) {
    setvars(g); auto l = plist(); Plato::ExpressionEvaluator e(l); std::string hist;
    for (int j = 0; j < 6; ++j) {
      P a; do a = gen(g, g.in(1, 3)); while (!fine(a)); std::string s = pr(a, g, false); hist += s + " ; ";
      if (g.coin(0.3)) { std::string bad = s + " *"; try { e.parse_expression(bad.c_str()); e.validate_expression(); c.check(false, "expr-state-bad-accepted", bad); } catch (...) {} if (g.coin()) e.delete_expression(); }
      c.begin(hist); try { e.parse_expression(s.c_str()); c.check(e.validate_expression() == 0, "expr-state-valid", s); double v = e.evaluate_expression(), v2 = e.evaluate_expression(); c.close(v, ev(a), "expr-state-value", 1e-2, 1e-7, s); c.check(v == v2, "expr-state-pure", s);
        std::ostringstream o; e.print_expression(o); c.check(!o.str().empty(), "expr-print", s); if (g.coin(0.2)) { e.delete_expression(); std::ostringstream q; e.print_expression(q); c.check(q.str().empty() && e.evaluate_expression() == 0, "expr-deleted", s); } }
      catch (const std::exception& x) { c.check(false, "expr-state-throw", s + x.what()); }
    }
  }
}
VH_GROUP(custom_material) {
  auto& g = c.rng;
  for (int k = 0; k < c.n(250, 4000); ++k) {
    setvars(g); auto l = plist(); int n = g.in(1, 6); std::vector<P> eq; std::vector<std::string> es; 
    for (int i = 0; i < n; ++i) { P a; std::string s; do { a = gen(g, g.in(1, 3)); s = pr(a, g, false); } while (!fine(a) || s.find('\n') != std::string::npos || s.find(',') != std::string::npos || a->op == 'w'); eq.push_back(a); es.push_back(s); }
    bool trailing = g.coin(), pre = g.coin(); std::string fn = "bingo.txt"; { std::ofstream o(fn); if (pre) o << "some log text, 1, 2\n\nmore text\n"; int more = g.coin() ? 0 : g.in(1, 3); const char* sep = g.coin() ? ", " : ","; o << "FITNESS    COMPLEXITY    "; for (int j = 0; j < more; ++j) o << "COLUMN" << j << "    "; o << "EQUATION\n"; for (int i = 0; i < n; ++i) { o << g.uni(0, 1) << sep << i << sep; for (int j = 0; j < more; ++j) o << g.in(0, 9) << sep; o << es[i]; if (i + 1 < n || trailing) o << "\n"; } }
    CM m(l); std::string d = str("bingo n=", n, " trailing=", trailing, " eq0=", es[0]);
    for (int i = 0; i <= n + 2; ++i) for (int how = 0; how < 3; ++how) {  // 0: index argument, 1: BingoEquation, 2: the argument wins over BingoEquation
      Teuchos::ParameterList q(l); q.set<std::string>("BingoFile", fn); if (how) q.set<int>("BingoEquation", how == 2 ? (i + 1) % (n + 1) : i); c.begin(str(d, " i=", i, " how=", how));
      auto call = [&] { return how == 1 ? m.b(q) : m.b(q, i); };
      if (i < n) { try { c.close(call(), ev(eq[i]), "bingo-value", 1e-2, 1e-7, es[i]); } catch (const std::exception& x) { c.check(false, "bingo-accepted", x.what()); } } else c.rejects(call, "bingo-missing-equation-rejected", str(d, " index ", i));
    }
    { Teuchos::ParameterList q(l); q.set<std::string>("BingoFile", fn); c.begin(d + " default"); try { c.close(m.b(q), ev(eq[0]), "bingo-default-first", 1e-2, 1e-7); } catch (const std::exception& x) { c.check(false, "bingo-accepted", x.what()); }
      q.set<std::string>("Equation", "E*2"); c.begin(d + " equation wins"); c.close(m.b(q), VARS["E"] * 2, "custom-equation-first", 0, 1e-13); q.set<std::string>("K", "E+1"); c.close(m.a(q, "K"), VARS["E"] + 1, "custom-named", 0, 1e-13); c.close(m.b(q, 3, "K"), VARS["E"] + 1, "custom-named", 0, 1e-13); }
    std::remove(fn.c_str());
    { Teuchos::ParameterList q(l); q.set<std::string>("BingoFile", "does-not-exist"); c.begin("no file"); c.rejects([&] { m.b(q); }, "bingo-no-file-rejected"); c.rejects([&] { m.b(l); }, "custom-none-rejected"); c.rejects([&] { m.a(l, "K"); }, "custom-none-rejected"); }
    { std::ofstream o(fn); o << "no header here\n0, 1, E\n"; } { Teuchos::ParameterList q(l); q.set<std::string>("BingoFile", fn); c.begin("no header"); c.rejects([&] { m.b(q); }, "bingo-no-header-rejected"); }
    { std::ofstream o(fn); o << "FITNESS COMPLEXITY EQUATION\nE\n"; } { Teuchos::ParameterList q(l); q.set<std::string>("BingoFile", fn); c.begin("no comma"); c.rejects([&] { m.b(q); }, "bingo-malformed-rejected"); }
    { std::ofstream o(fn); o << "FITNESS COMPLEXITY EQUATION\n"; } { Teuchos::ParameterList q(l); q.set<std::string>("BingoFile", fn); c.begin("header only"); c.rejects([&] { m.b(q); }, "bingo-header-only-rejected"); }
    std::remove(fn.c_str());
  }
}
VH_GROUP(math_expr) { // boundary-condition time functions y=f(t)
  auto& g = c.rng;
  struct F { const char* s; double (*f)(double); } fs[] = {{"2*t+1", [](double t) { return 2 * t + 1; }}, {"pi=3.14159265358979; sin(pi*t)", [](double t) { return std::sin(3.14159265358979 * t); }}, {"t^2", [](double t) { return t * t; }},
    {"a=2.5; b=a*3; a*t-b", [](double t) { return 2.5 * t - 7.5; }}, {"exp(-t)", [](double t) { return std::exp(-t); }}, {"t*t*t-4/(1+t*t)", [](double t) { return t * t * t - 4 / (1 + t * t); }}, {"sqrt(1+t*t)", [](double t) { return std::sqrt(1 + t * t); }}, {"cos(t)-t", [](double t) { return std::cos(t) - t; }}, {"t", [](double t) { return t; }}, {"1.0", [](double t) { return 1.0; }}};
  for (int k = 0; k < c.n(60, 1000); ++k) for (auto& f : fs) { Plato::MathExpr m(f.s); for (int j = 0; j < 3; ++j) { double t = g.coin(0.2) ? g.in(0, 4) : g.coin(0.3) ? g.uni(0, 1e-3) : g.uni(-3, 3); if (t < 0 && std::string(f.s) == "t^2") t = -t; c.begin(str(f.s, " t=", t)); try { double v = m.value(t); c.close(v, f.f(t), "mathexpr-value", 1, 1e-12, f.s); } catch (const std::exception& x) { c.check(false, "mathexpr-accepted", str(f.s, " ", t, " ", x.what())); } } }
}
