#pragma once
// P01: fixed-size array arithmetic equals element-wise arithmetic on plain C++ numbers.
#include "pbt.hpp"
#include <array>
#include <cmath>
#include <grid/array.hpp>
#include <grid/arrayexpression.hpp>

using schnek::Array;
using schnek::ArrayAssertArgCheck;
using schnek::ArrayNoArgCheck;
using pbt::Src;

template <class T>
T gen(Src &s);
template <>
inline int gen<int>(Src &s) { return (int)s.near0(-60, 60); }
template <>
inline long gen<long>(Src &s) { return (long)s.near0(-100000, 100000); }
template <>
inline double gen<double>(Src &s) { return s.near0(-2000, 2000) / 16.0; }
template <>
inline float gen<float>(Src &s) { return s.near0(-400, 400) / 4.0f; }

template <class T>
struct Lim;
template <>
struct Lim<int> { static constexpr double v = 1e4; };
template <>
struct Lim<long> { static constexpr double v = 1e8; };
template <>
struct Lim<double> { static constexpr double v = 1e30; };
template <>
struct Lim<float> { static constexpr double v = 1e8; };

template <class T>
bool same(T a, T b) {
  if (a == b) return true;
  if (std::is_integral<T>::value) return false;
  double x = a, y = b;
  if (std::isnan(x) && std::isnan(y)) return true;
  double eps = sizeof(T) == 4 ? 1e-5 : 1e-12;
  return std::fabs(x - y) <= eps * std::max(std::fabs(x), std::fabs(y));
}

template <class T, size_t L>
struct Machine {
  typedef Array<T, L> A;
  typedef Array<T, L, ArrayAssertArgCheck> B;
  typedef std::array<T, L> M;
  static const int N = 3;
  A a[N];
  B b;
  M m[N + 1];
  Src &s;
  explicit Machine(Src &s_) : s(s_) {}

  static std::string show(const M &v) {
    std::ostringstream o;
    o << "(";
    for (size_t i = 0; i < L; ++i) o << (i ? "," : "") << v[i];
    o << ")";
    return o.str();
  }

  template <class X>
  void same_as(const X &x, const M &ref, const std::string &what) {
    for (size_t i = 0; i < L; ++i)
      CHECK(same<T>(x[i], ref[i]), what << ": element " << i << " is " << x[i] << " instead of " << ref[i]);
  }
  void invariant(const std::string &what) {
    for (int k = 0; k < N; ++k) same_as(a[k], m[k], what + ", array " + std::to_string(k));
    same_as(b, m[N], what + ", checked array");
    for (int k = 0; k < N; ++k)
      for (size_t i = 0; i < L; ++i)
        CHECK(same<T>(const_cast<const A &>(a[k]).at(i), a[k].at(i)), "const and non-const access differ after " << what);
  }
  void init() {
    for (int k = 0; k <= N; ++k) {
      for (size_t i = 0; i < L; ++i) {
        T v = gen<T>(s);
        m[k][i] = v;
        if (k < N) a[k][i] = v;
        else b[i] = v;
      }
      NOTE(s) << (k < N ? "a" + std::to_string(k) : std::string("b")) << "=" << show(m[k]) << " ";
    }
    NOTE(s) << "\n";
  }
  bool big(const M &x) {
    for (T v : x)
      if (!(std::fabs((double)v) <= Lim<T>::v)) return true;
    return false;
  }
  bool zero(const M &x) {
    for (T v : x)
      if (v == T(0)) return true;
    return false;
  }
  template <class F>
  M zip(const M &x, const M &y, F f) {
    M r;
    for (size_t i = 0; i < L; ++i) r[i] = f(x[i], y[i]);
    return r;
  }

  // calls k(expression, reference) for a generated expression shape over x,y,z and the scalar c
  template <class K>
  void expression(K k, bool withDiv) {
    int ix = (int)s.draw(N), iy = (int)s.draw(N), iz = (int)s.draw(N);
    T c = gen<T>(s);
    const A &x = a[ix], &y = a[iy], &z = a[iz];
    const M &X = m[ix], &Y = m[iy], &Z = m[iz], &W = m[N];
    int shape = (int)s.draw(withDiv ? 34 : 25);
    if (shape >= 25 && (zero(Y) || zero(Z) || zero(W) || c == T(0))) shape -= 25;
    NOTE(s) << "expr shape " << shape << " x=a" << ix << " y=a" << iy << " z=a" << iz << " c=" << c << "\n";
    s.label("shape" + std::to_string(shape));
    M r;
#define EACH(E)                         \
  for (size_t i = 0; i < L; ++i) {      \
    T X_ = X[i], Y_ = Y[i], Z_ = Z[i], W_ = W[i]; \
    (void)X_; (void)Y_; (void)Z_; (void)W_; \
    r[i] = E;                           \
  }
#define SH(N_, E, R) \
  case N_: {         \
    EACH(R)          \
    k(E, r);         \
    break;           \
  }
    switch (shape) {
      SH(0, x + y, X_ + Y_)
      SH(1, x - y, X_ - Y_)
      SH(2, x * y, X_ * Y_)
      SH(3, x + c, X_ + c)
      SH(4, c + x, c + X_)
      SH(5, x - c, X_ - c)
      SH(6, c - x, c - X_)
      SH(7, x * c, X_ * c)
      SH(8, c * x, c * X_)
      SH(9, -x, -X_)
      SH(10, +x, +X_)
      SH(11, (x + y) - z, (X_ + Y_) - Z_)
      SH(12, x - (y + z), X_ - (Y_ + Z_))
      SH(13, x - (y - z), X_ - (Y_ - Z_))
      SH(14, (x - y) * z, (X_ - Y_) * Z_)
      SH(15, x * (y - z), X_ * (Y_ - Z_))
      SH(16, (x + y) * (y - z), (X_ + Y_) * (Y_ - Z_))
      SH(17, (x - y) - (z - x), (X_ - Y_) - (Z_ - X_))
      SH(18, (x - y) - c, (X_ - Y_) - c)
      SH(19, c - (x - y), c - (X_ - Y_))
      SH(20, c * (x - y) + z, c * (X_ - Y_) + Z_)
      SH(21, (x + y) * c - z * x, (X_ + Y_) * c - Z_ * X_)
      SH(22, x + b, X_ + W_)
      SH(23, (b - x) * (-y), (W_ - X_) * (-Y_))
      SH(24, (x + c) + (c - y), (X_ + c) + (c - Y_))
      SH(25, x / y, X_ / Y_)
      SH(26, x / c, X_ / c)
      SH(27, c / y, c / Y_)
      SH(28, (x - z) / y, (X_ - Z_) / Y_)
      SH(29, x / y - z / b, X_ / Y_ - Z_ / W_)
      SH(30, (x + y) / c, (X_ + Y_) / c)
      SH(31, c / y + x, c / Y_ + X_)
      SH(32, (x / y) / z, (X_ / Y_) / Z_)
      SH(33, (x + z) / b, (X_ + Z_) / W_)
    }
#undef SH
  }

  void step() {
    int i = (int)s.draw(N), j = (int)s.draw(N);
    int op = (int)s.draw(20);
    NOTE(s) << "op " << op << " i=" << i << " j=" << j << ": ";
    s.label("op" + std::to_string(op));
    M save = m[i];
    std::string what = "operation " + std::to_string(op);
    switch (op) {
      case 0: {  // assignment from an expression which may read its own target
        expression([&](const auto &e, const M &r) {
          a[i] = e;
          m[i] = r;
        }, true);
        break;
      }
      case 1: {  // an expression kept in a variable and evaluated later
        expression([&](const auto &e, const M &r) {
          auto keep = e;
          A t(keep);
          same_as(t, r, "constructed from stored expression");
          for (size_t q = 0; q < L; ++q) CHECK(same<T>(keep[q], r[q]), "stored expression element " << q);
        }, true);
        break;
      }
      case 2: expression([&](const auto &e, const M &r) { a[i] += e; m[i] = zip(m[i], r, [](T p, T q) { return T(p + q); }); }, true); break;
      case 3: expression([&](const auto &e, const M &r) { a[i] -= e; m[i] = zip(m[i], r, [](T p, T q) { return T(p - q); }); }, true); break;
      case 4: expression([&](const auto &e, const M &r) { a[i] *= e; m[i] = zip(m[i], r, [](T p, T q) { return T(p * q); }); }, true); break;
      case 5: expression([&](const auto &e, const M &r) {
          if (zero(r)) return;
          a[i] /= e; m[i] = zip(m[i], r, [](T p, T q) { return T(p / q); }); }, true); break;
      case 6: a[i] = a[j]; m[i] = m[j]; break;
      case 7: a[i] += a[j]; m[i] = zip(m[i], m[j], [](T p, T q) { return T(p + q); }); break;
      case 8: a[i] -= a[j]; m[i] = zip(m[i], m[j], [](T p, T q) { return T(p - q); }); break;
      case 9: a[i] *= a[j]; m[i] = zip(m[i], m[j], [](T p, T q) { return T(p * q); }); break;
      case 10: if (!zero(m[j])) { a[i] /= a[j]; m[i] = zip(m[i], m[j], [](T p, T q) { return T(p / q); }); } break;
      case 11: case 12: case 13: case 14: {  // scalar operand, sometimes an element of the array itself
        size_t q = s.draw(L);
        bool alias = s.chance(1, 2);
        T c = alias ? m[i][q] : gen<T>(s);
        NOTE(s) << (alias ? "element " + std::to_string(q) : std::string("scalar")) << " " << c;
        if (op == 14 && c == T(0)) break;
        M r = m[i];
        for (auto &v : r) v = op == 11 ? T(v + c) : op == 12 ? T(v - c) : op == 13 ? T(v * c) : T(v / c);
        if (alias) {
          if (op == 11) a[i] += a[i][q];
          if (op == 12) a[i] -= a[i][q];
          if (op == 13) a[i] *= a[i][q];
          if (op == 14) a[i] /= a[i][q];
        } else {
          if (op == 11) a[i] += c;
          if (op == 12) a[i] -= c;
          if (op == 13) a[i] *= c;
          if (op == 14) a[i] /= c;
        }
        m[i] = r;
        break;
      }
      case 15: { T c = gen<T>(s); a[i].fill(c); m[i].fill(c); break; }
      case 16: { size_t q = s.draw(L); T c = gen<T>(s); a[i][q] = c; m[i][q] = c; break; }
      case 17: { b = a[i]; m[N] = m[i]; break; }
      case 18: { A t(b); same_as(t, m[N], "converted policy"); a[i] = b; m[i] = m[N]; break; }
      case 19: { if (s.chance(1, 2)) { a[i].clear(); m[i].fill(T(0)); } else { a[i] = s.chance(1, 2) ? A::Ones() : A::Zero(); T v = a[i][0]; CHECK(v == T(0) || v == T(1), "Zero/Ones"); m[i].fill(v); } break; }
    }
    NOTE(s) << " -> a" << i << "=" << show(m[i]) << "\n";
    invariant(what);
    if (big(m[i])) {  // keep the numbers in the exact / defined range
      a[i].fill(T(1));
      m[i].fill(T(1));
    }
  }

  void observe() {
    int i = (int)s.draw(N), j = (int)s.draw(N);
    // comparisons, sometimes between nearly equal arrays
    A y = a[j];
    M Y = m[j];
    if (s.chance(2, 3)) {
      Y = m[i];
      int n = (int)s.range(0, 2);
      for (int q = 0; q < n; ++q) {
        size_t d = s.draw(L);
        Y[d] = T(Y[d] + T(s.near0(-1, 1)));
      }
      if (s.chance(1, 3)) for (size_t d = 0; d < L; ++d) Y[d] = T(Y[d] + T(s.range(0, 2)));
      for (size_t d = 0; d < L; ++d) y[d] = Y[d];
    }
    const M &X = m[i];
    bool eq = true, lt = true, le = true;
    for (size_t d = 0; d < L; ++d) {
      eq = eq && X[d] == Y[d];
      lt = lt && X[d] < Y[d];
      le = le && X[d] <= Y[d];
    }
    NOTE(s) << "compare " << show(X) << " with " << show(Y) << "\n";
    s.label(eq ? "compare eq" : lt ? "compare lt" : le ? "compare le" : "compare unordered");
    // reference values may differ from the array in the last bits: only compare when identical
    bool exact = true;
    for (size_t d = 0; d < L; ++d) exact = exact && a[i][d] == X[d];
    if (exact) {
      CHECK((a[i] == y) == eq, "operator== gives " << (a[i] == y));
      CHECK((a[i] != y) == !eq, "operator!= gives " << (a[i] != y));
      CHECK((a[i] < y) == lt, "operator< gives " << (a[i] < y));
      CHECK((a[i] <= y) == le, "operator<= gives " << (a[i] <= y));
      B yb(y);
      CHECK((a[i] == yb) == eq && (yb == a[i]) == eq, "operator== across checking policies");
      CHECK((a[i] < yb) == lt && (a[i] <= yb) == le, "ordering across checking policies");
    }
    double sum = 0, prod = 1, sq = 0, asum = 0;
    for (size_t d = 0; d < L; ++d) {
      sum += X[d];
      asum += std::fabs((double)X[d]);
      prod *= X[d];
      sq += (double)X[d] * X[d];
    }
    double tol = sizeof(T) == 4 && !std::is_integral<T>::value ? 1e-4 : 1e-10;
    CHECK(std::fabs(a[i].sum() - sum) <= tol * asum + 1e-30, "sum of " << show(X) << " is " << a[i].sum());
    if (sq < (std::is_integral<T>::value && sizeof(T) == 4 ? 2e9 : 9e18))
      CHECK(std::fabs(a[i].sqr() - sq) <= tol * sq + 1e-30, "sum of squares of " << show(X) << " is " << a[i].sqr());
    double pl = 1, pmin = 1;
    for (size_t d = 0; d < L; ++d) if (X[d] != T(0)) pmin *= std::min(1.0, std::fabs((double)X[d]));
    for (size_t d = 0; d < L; ++d) pl *= std::max(1.0, std::fabs((double)X[d]));
    if (pmin > 1e-30 && pl < (std::is_integral<T>::value && sizeof(T) == 4 ? 2e9 : 9e18))
      CHECK(std::fabs(a[i].product() - prod) <= tol * std::fabs(prod) + 1e-30, "product of " << show(X) << " is " << a[i].product());
    if constexpr (L > 1) {
      auto p = a[i].template project<L - 1>();
      for (size_t d = 0; d + 1 < L; ++d) CHECK(same<T>(p[d], X[d]), "project element " << d << " of " << show(X));
      auto p1 = a[i].template project<1>();
      CHECK(same<T>(p1[0], X[0]), "project<1>");
      size_t dim = s.draw(L);
      auto pd = a[i].projectDim(dim);
      for (size_t d = 0, e = 0; d < L; ++d)
        if (d != dim) {
          CHECK(same<T>(pd[e], X[d]), "projectDim(" << dim << ") of " << show(X) << " element " << e << " is " << pd[e]);
          ++e;
        }
    }
  }
};

template <class T, size_t L>
void machine(Src &s) {
  NOTE(s) << "element type size " << sizeof(T) << (std::is_integral<T>::value ? " integer" : " floating") << ", length " << L << "\n";
  Machine<T, L> m(s);
  m.init();
  int steps = (int)s.range(1, 8);
  for (int i = 0; i < steps; ++i) m.step();
  m.observe();
  if (steps >= 2) s.nontrivial();
}

