// Normal forms for real arithmetic: an expression over floating point becomes a
// polynomial over atoms (inputs, library calls, square roots, ...) together with
// a bound on how far rounding can take the computed value from it.  Two
// expressions whose difference is bounded below a tolerance for every value of
// the atoms are close; anything else is left to the solver.
#include "solver.hpp"
#include <algorithm>
#include <cmath>
#include <map>

namespace {
typedef std::vector<uint32_t> Mono; // sorted atom ids
struct Form {
  std::map<Mono, long double> c;
  long double err = 0;
  bool ok = true;
};
std::unordered_map<uint32_t, Form> memo;
std::unordered_map<uint32_t, E> atoms;
const size_t LIMIT = 1500;

long double mag(E e) {
  FInt f = fpInterval(e);
  return std::max(fabsl(f.lo), fabsl(f.hi));
}
long double mag(const Mono &m) {
  long double r = 1;
  for (uint32_t a : m) r *= mag(atoms[a]);
  return r * (1 + 1e-15L);
}
long double ulp(unsigned w) { return ldexpl(1, w == 32 ? -24 : w == 80 ? -64 : -53); }
APInt oneOf(unsigned w) {
  APFloat f(1.0);
  bool li;
  f.convert(semOf(w), APFloat::rmNearestTiesToEven, &li);
  return f.bitcastToAPInt();
}
Form bad() { Form f; f.ok = false; return f; }
Form atom(E e) {
  Form f;
  if (!std::isfinite((double)mag(e))) return bad();
  atoms[e->id] = e;
  f.c[{e->id}] = 1;
  return f;
}
void put(Form &f, const Mono &m, long double v) {
  if (v == 0) return;
  long double &x = f.c[m];
  x += v;
  f.err += 1.1e-19L * (fabsl(x) + fabsl(v)) * mag(m);
  if (x == 0) f.c.erase(m);
}
Form scale(const Form &a, long double k) {
  Form r;
  r.ok = a.ok;
  for (auto &t : a.c) put(r, t.first, t.second * k);
  r.err += a.err * fabsl(k) * (1 + 1e-15L);
  return r;
}
Form sum(const Form &a, const Form &b, int sign) {
  Form r = a;
  r.ok = a.ok && b.ok;
  for (auto &t : b.c) put(r, t.first, sign * t.second);
  r.err += b.err;
  return r;
}
Form form(E e);
// sin^2 = 1 - cos^2, up to the library's accuracy
Form reduce(const Form &a) {
  Form r;
  r.ok = a.ok;
  r.err = a.err;
  std::vector<std::pair<Mono, long double> > todo(a.c.begin(), a.c.end());
  while (!todo.empty()) {
    Mono m = todo.back().first;
    long double v = todo.back().second;
    todo.pop_back();
    bool hit = false;
    for (size_t i = 0; i + 1 < m.size() && !hit; ++i)
      if (m[i] == m[i + 1]) {
        E s = atoms[m[i]];
        if (s->op == Op::FSqrt) { // sqrt(p)^2 = p
          Form p = form(s->k[0]);
          if (!p.ok || p.c.size() * a.c.size() > LIMIT) continue;
          Mono rest;
          for (size_t k = 0; k < m.size(); ++k)
            if (k != i && k != i + 1) rest.push_back(m[k]);
          for (auto &t : p.c) {
            Mono with = rest;
            with.insert(with.end(), t.first.begin(), t.first.end());
            std::sort(with.begin(), with.end());
            todo.push_back({with, v * t.second});
          }
          r.err += fabsl(v) * mag(rest) * (p.err + 4 * ulp(s->width) * mag(s->k[0]) + 1e-300L);
          hit = true;
          continue;
        }
        if (s->op != Op::FUnk || (s->name != "sin" && s->name != "sinf")) continue;
        E c = mkUnk(s->name == "sin" ? "cos" : "cosf", s->k, s->width);
        atoms[c->id] = c;
        Mono rest;
        for (size_t k = 0; k < m.size(); ++k)
          if (k != i && k != i + 1) rest.push_back(m[k]);
        Mono with = rest;
        with.push_back(c->id);
        with.push_back(c->id);
        std::sort(with.begin(), with.end());
        todo.push_back({rest, v});
        todo.push_back({with, -v});
        r.err += fabsl(v) * mag(rest) * 16 * ulp(s->width);
        hit = true;
      }
    if (!hit) put(r, m, v);
  }
  return r;
}
Form form(E e);
Form raw(E e) {
  unsigned w = e->width;
  auto rounded = [&](Form f) {
    if (!f.ok) return f;
    long double m = mag(e);
    if (!std::isfinite((double)m)) return bad();
    f.err += m * ulp(w) + 1e-300L;
    return f;
  };
  switch (e->op) {
  case Op::Const: {
    double d = toDouble(e->val, w);
    if (!std::isfinite(d) || w == 80) return bad();
    Form f;
    if (d != 0) f.c[{}] = d;
    return f;
  }
  case Op::FAdd: return rounded(sum(form(e->k[0]), form(e->k[1]), 1));
  case Op::FSub: return rounded(sum(form(e->k[0]), form(e->k[1]), -1));
  case Op::FNeg: return scale(form(e->k[0]), -1);
  case Op::Xor: if (e->k[1]->isConst() && e->k[1]->val.isSignMask()) return scale(form(e->k[0]), -1); return atom(e);
  case Op::FExt: return form(e->k[0]);
  case Op::FTrunc: return rounded(form(e->k[0]));
  case Op::FDiv:
    if (e->k[1]->isConst()) {
      double d = toDouble(e->k[1]->val, w);
      if (d == 0 || !std::isfinite(d)) return bad();
      return rounded(scale(form(e->k[0]), 1.0L / d));
    }
    if (!e->k[0]->isConst()) { // a/b is a times 1/b
      E inv = mkF2(Op::FDiv, mkConst(oneOf(w)), e->k[1]);
      Form a = form(e->k[0]), i = atom(inv);
      if (!a.ok || !i.ok) return atom(e);
      Form r;
      for (auto &s : a.c) {
        Mono m = s.first;
        m.push_back(inv->id);
        std::sort(m.begin(), m.end());
        put(r, m, s.second);
      }
      long double mi = mag(inv);
      r.err += (a.err + 4 * ulp(w) * (mag(e->k[0]) + a.err)) * mi + 1e-300L;
      return r;
    }
    return atom(e);
  case Op::FMul: case Op::FFma: {
    if (e->op == Op::FMul && e->k[0] == e->k[1]) {
      E x = e->k[0];
      if (x->op == Op::FAbs || x->op == Op::FNeg) return form(mkF2(Op::FMul, x->k[0], x->k[0]));
      if (x->op == Op::Ite) { // either side may have the same square
        Form p = form(mkF2(Op::FMul, x->k[1], x->k[1])), q = form(mkF2(Op::FMul, x->k[2], x->k[2]));
        if (p.ok && q.ok && p.c == q.c) {
          p.err = std::max(p.err, q.err);
          return p;
        }
      }
    }
    const Form &a = form(e->k[0]), &b = form(e->k[1]);
    if (!a.ok || !b.ok) return bad();
    if (a.c.size() * b.c.size() > LIMIT) return atom(e);
    Form r;
    for (auto &s : a.c)
      for (auto &t : b.c) {
        Mono m = s.first;
        m.insert(m.end(), t.first.begin(), t.first.end());
        std::sort(m.begin(), m.end());
        if (m.size() > 12) return atom(e);
        put(r, m, s.second * t.second);
      }
    long double ma = mag(e->k[0]), mb = mag(e->k[1]);
    r.err += a.err * mb + (ma + a.err) * b.err;
    if (e->op == Op::FFma) r = sum(r, form(e->k[2]), 1);
    return rounded(reduce(r));
  }
  case Op::FAbs: {
    FInt f = fpInterval(e->k[0]);
    if (f.lo >= 0) return form(e->k[0]);
    if (f.hi <= 0) return scale(form(e->k[0]), -1);
    return atom(e);
  }
  default: return atom(e);
  }
}
Form form(E e) {
  auto it = memo.find(e->id);
  if (it != memo.end()) return it->second;
  Form f = raw(e);
  if (f.ok && (f.c.size() > LIMIT || !std::isfinite((double)f.err))) f = atom(e);
  return memo[e->id] = f;
}
Form times(const Form &a, const Form &b) {
  Form r;
  r.ok = a.ok && b.ok && a.c.size() * b.c.size() <= LIMIT;
  if (!r.ok) return r;
  long double ma = 0, mb = 0;
  for (auto &s : a.c) ma += fabsl(s.second) * mag(s.first);
  for (auto &t : b.c) mb += fabsl(t.second) * mag(t.first);
  for (auto &s : a.c)
    for (auto &t : b.c) {
      Mono m = s.first;
      m.insert(m.end(), t.first.begin(), t.first.end());
      std::sort(m.begin(), m.end());
      put(r, m, s.second * t.second);
    }
  r.err += a.err * mb + (ma + a.err) * b.err;
  return reduce(r);
}
// a sum over powers of k/X is small if X to the highest of them times the sum is
bool clearDenominator(Form &d, long double &factor) {
  for (auto &t : d.c)
    for (uint32_t id : t.first) {
      E inv = atoms[id];
      if (inv->op != Op::FDiv || !inv->k[0]->isConst()) continue;
      double k0 = toDouble(inv->k[0]->val, inv->width); // inv is k0/X
      if (!std::isfinite(k0) || k0 == 0) continue;
      Form x = form(inv->k[1]);
      if (!x.ok || (x.c.size() == 1 && x.c.begin()->first.size() == 1 && x.c.begin()->first[0] == inv->k[1]->id)) continue;
      size_t top = 0;
      std::map<size_t, Form> by;
      for (auto &u : d.c) {
        Mono rest;
        for (uint32_t k : u.first)
          if (k != id) rest.push_back(k);
        size_t n = u.first.size() - rest.size();
        top = std::max(top, n);
        put(by[n], rest, u.second);
      }
      if (top > 3) continue;
      Form r;
      for (auto &b : by) {
        Form f = b.second;
        for (size_t n = 0; n < b.first; ++n) f = scale(f, k0);
        for (size_t n = b.first; n < top; ++n) f = times(f, x);
        if (!f.ok) return false;
        r = sum(r, f, 1);
      }
      long double m = mag(inv);
      for (size_t n = 0; n < top; ++n) factor *= m / fabsl(k0);
      d = r;
      return std::isfinite((double)factor);
    }
  return false;
}
} // namespace

bool closeByNormalForm(E x, E y, double tol) {
  Form d = sum(form(x), form(y), -1);
  if (!d.ok) return false;
  long double far = d.err, factor = 1;
  d.err = 0;
  for (int i = 0;; ++i) {
    long double b = d.err;
    for (auto &t : d.c) b += fabsl(t.second) * mag(t.first);
    b = far + b * factor;
    if (std::isfinite((double)b) && b <= tol) return true;
    if (i == 3 || !clearDenominator(d, factor)) return false;
  }
}
