#include "h_array.hpp"
void array_int_1(pbt::Src &s);
void array_int_3(pbt::Src &s);
void array_double_2(pbt::Src &s);
void array_double_3(pbt::Src &s);
void array_int_2(pbt::Src &s);
void array_long_4(pbt::Src &s);
void array_float_5(pbt::Src &s);
void array_double_1(pbt::Src &s);
void array_int_7(pbt::Src &s);
void array_double_10(pbt::Src &s);
PROPERTY(array_machine) {
  switch (s.draw(10)) {
    case 0: array_int_1(s); break;
    case 1: array_int_3(s); break;
    case 2: array_double_2(s); break;
    case 3: array_double_3(s); break;
    case 4: array_int_2(s); break;
    case 5: array_long_4(s); break;
    case 6: array_float_5(s); break;
    case 7: array_double_1(s); break;
    case 8: array_int_7(s); break;
    case 9: array_double_10(s); break;
  }
}

// constructors, and operations between arrays of different element types
template <size_t L, size_t... I>
void ctor(Src &s, std::index_sequence<I...>) {
  int v[L];
  for (size_t i = 0; i < L; ++i) v[i] = gen<int>(s);
  Array<int, L> a(v[I]...);
  Array<double, L> d((double)v[I]...);
  Array<int, L, ArrayAssertArgCheck> c(v[I]...);
  NOTE(s) << "values";
  for (size_t i = 0; i < L; ++i) NOTE(s) << " " << v[i];
  NOTE(s) << "\n";
  for (size_t i = 0; i < L; ++i)
    CHECK(a[i] == v[i] && d[i] == v[i] && c[i] == v[i], "constructed element " << i << " of length " << L);
  Array<int, L> one(v[0]);
  for (size_t i = 0; i < L; ++i) CHECK(one[i] == v[0], "single value constructor, element " << i);
  Array<int, L> cp(a), as;
  as = a;
  CHECK(cp == a && as == a && !(cp != a), "copies are equal");
  cp[L - 1] += 1;
  CHECK(cp != a && !(cp == a), "a copy is independent of its original");
  // mixed element types
  double f[L];
  Array<double, L> e;
  for (size_t i = 0; i < L; ++i) {
    f[i] = s.near0(-400, 400) / 8.0;
    e[i] = f[i];
  }
  NOTE(s) << "doubles";
  for (size_t i = 0; i < L; ++i) NOTE(s) << " " << f[i];
  NOTE(s) << "\n";
  Array<double, L> r;
  r = a;
  for (size_t i = 0; i < L; ++i) CHECK(r[i] == v[i], "int array assigned to double array");
  r += e;
  r -= a;
  for (size_t i = 0; i < L; ++i) CHECK(r[i] == (double)v[i] + f[i] - v[i], "mixed += and -=");
  r = e;
  r *= a;
  for (size_t i = 0; i < L; ++i) CHECK(r[i] == f[i] * v[i], "mixed *=");
  bool z = false;
  for (size_t i = 0; i < L; ++i) z = z || v[i] == 0;
  if (!z) {
    r = e;
    r /= a;
    for (size_t i = 0; i < L; ++i) CHECK(same<double>(r[i], f[i] / v[i]), "mixed /=");
  }
  r = e;
  r *= v[0];
  r += v[L - 1];
  for (size_t i = 0; i < L; ++i) CHECK(r[i] == f[i] * v[0] + v[L - 1], "double array with int scalar");
  Array<int, L> t;
  t = e;
  for (size_t i = 0; i < L; ++i) CHECK(t[i] == (int)f[i], "double array assigned to int array truncates");
  bool eq = true, lt = true, le = true;
  for (size_t i = 0; i < L; ++i) {
    eq = eq && v[i] == f[i];
    lt = lt && v[i] < f[i];
    le = le && v[i] <= f[i];
  }
  CHECK((a == e) == eq && (a != e) == !eq && (a < e) == lt && (a <= e) == le, "comparison int with double");
  s.nontrivial();
}

PROPERTY(array_construct) {
  switch (s.draw(9)) {
    case 0: ctor<2>(s, std::make_index_sequence<2>()); break;
    case 1: ctor<3>(s, std::make_index_sequence<3>()); break;
    case 2: ctor<4>(s, std::make_index_sequence<4>()); break;
    case 3: ctor<5>(s, std::make_index_sequence<5>()); break;
    case 4: ctor<6>(s, std::make_index_sequence<6>()); break;
    case 5: ctor<7>(s, std::make_index_sequence<7>()); break;
    case 6: ctor<8>(s, std::make_index_sequence<8>()); break;
    case 7: ctor<9>(s, std::make_index_sequence<9>()); break;
    case 8: ctor<10>(s, std::make_index_sequence<10>()); break;
  }
}
