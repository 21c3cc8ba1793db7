// Serialisation round trips (spec/Serial.tla).
#include <nimble.mpi.serialization.h>

#include "probe_common.h"
using nimble::serialization::serial_t;

struct Plain
{
  int    a;
  double b;
  char   c;
};
inline void
to_json(json& j, const Plain& p)
{
  j = json::array({p.a, p.b, (int)p.c});
}
inline void
from_json(const json& j, Plain& p)
{
  std::memset(&p, 0, sizeof p);
  p.a = j[0];
  p.b = j[1];
  p.c = (char)j[2].get<int>();
}

template <class T>
struct conv
{
  static T    in(const json& j) { return j.get<T>(); }
  static json out(const T& t) { return json(t); }
};
template <>
struct conv<char>
{
  static char in(const json& j) { return (char)j.get<int>(); }
  static json out(char c) { return (int)c; }
};
template <class T>
struct conv<std::vector<T>>
{
  static std::vector<T>
  in(const json& j)
  {
    std::vector<T> v;
    for (auto& x : j) v.push_back(conv<T>::in(x));
    return v;
  }
  static json
  out(const std::vector<T>& v)
  {
    json j = json::array();
    for (auto& x : v) j.push_back(conv<T>::out(x));
    return j;
  }
};
template <class T, size_t N>
struct conv<std::array<T, N>>
{
  static std::array<T, N>
  in(const json& j)
  {
    std::array<T, N> v;
    for (size_t i = 0; i < N; ++i) v[i] = conv<T>::in(j[i]);
    return v;
  }
  static json
  out(const std::array<T, N>& v)
  {
    json j = json::array();
    for (auto& x : v) j.push_back(conv<T>::out(x));
    return j;
  }
};
template <class A, class B>
struct conv<std::pair<A, B>>
{
  static std::pair<A, B>
  in(const json& j)
  {
    return {conv<A>::in(j[0]), conv<B>::in(j[1])};
  }
  static json
  out(const std::pair<A, B>& v)
  {
    return json::array({conv<A>::out(v.first), conv<B>::out(v.second)});
  }
};

// raw interface: announced size, produced bytes, consumed bytes, nothing outside touched
template <class T>
static json
raw(const T& v, T& into)
{
  json              o;
  size_t            n = serial_t<T>::size(v);
  std::vector<char> b(n + 64, 0x5a);
  char*             p = b.data() + 32;
  serial_t<T>::pack(v, p);
  o["size"]     = n;
  o["produced"] = p - (b.data() + 32);
  char* q       = b.data() + 32;
  serial_t<T>::unpack(into, q);
  o["consumed"] = q - (b.data() + 32);
  for (size_t i = 0; i < 32; ++i)
    if (b[i] != 0x5a || b[b.size() - 1 - i] != 0x5a) o["outside"] = true;
  o["v"] = conv<T>::out(into);
  return o;
}

template <class T, class BT>
static json
buffered(const json& vals, bool avoid)
{
  json            r = json::array();
  std::vector<BT> buf;
  T               obj{};
  for (auto& j : vals) {
    T      v = conv<T>::in(j);
    size_t before = buf.size();
    size_t n = avoid ? nimble::serialization::pack_avoid_resize(v, buf) : nimble::serialization::pack(v, buf);
    json   o;
    o["size"] = n;
    o["fits"] = buf.size() * sizeof(BT) >= n;
    (void)before;
    nimble::serialization::unpack(obj, buf);
    o["v"] = conv<T>::out(obj);
    r.push_back(o);
  }
  return r;
}

template <class T>
static json
type(const json& vals)
{
  json r;
  T    obj{};
  r["raw"] = json::array();
  for (auto& j : vals) r["raw"].push_back(raw<T>(conv<T>::in(j), obj));
  r["buf"] = json::array({buffered<T, char>(vals, false),   buffered<T, char>(vals, true), buffered<T, int>(vals, false),
                          buffered<T, int>(vals, true),     buffered<T, double>(vals, true),
                          buffered<T, double>(vals, false)});
  return r;
}

// a pointer stands for what it points to
template <class T>
static json
pointed(const json& vals)
{
  json r;
  T    obj{};
  r["raw"] = json::array();
  r["buf"] = json::array({json::array(), json::array()});
  std::vector<int> b;
  for (auto& j : vals) {
    T      v = conv<T>::in(j);
    json   o;
    size_t n = serial_t<T*>::size(&v);
    std::vector<char> c(n + 8);
    char*  p = c.data();
    serial_t<T*>::pack(&v, p);
    char* q = c.data();
    serial_t<T*>::unpack(&obj, q);
    o["size"]     = n;
    o["produced"] = p - c.data();
    o["consumed"] = q - c.data();
    o["v"]        = conv<T>::out(obj);
    r["raw"].push_back(o);
    for (int k = 0; k < 2; ++k) {
      const T* in   = &v;
      T*       outp = &obj;
      json     w;
      w["size"] = k ? nimble::serialization::pack(&v, b) : nimble::serialization::pack_avoid_resize(&v, b);
      w["fits"] = b.size() * sizeof(int) >= w["size"].get<size_t>();
      nimble::serialization::unpack(outp, b);
      w["v"] = conv<T>::out(obj);
      r["buf"][k].push_back(w);
      (void)in;
    }
  }
  return r;
}

template <class T>
using V = std::vector<T>;
template <int N, class T>
using A = std::array<T, N>;
template <class X, class Y>
using P = std::pair<X, Y>;
using I = int;
using C = char;
using D = double;
using Z = size_t;
using S = Plain;

int
main()
{
  using F = json (*)(const json&);
  // the order of spec/Serial.tla, Types
  static const F f[] = {
      type<I>, type<C>, type<D>, type<Z>, type<S>, type<P<I, D>>, type<P<C, I>>, type<P<P<I, C>, D>>, type<P<I, V<D>>>,
      type<P<V<C>, I>>, type<V<I>>, type<V<C>>, type<V<D>>, type<V<Z>>, type<V<S>>, type<V<V<I>>>,
      type<V<P<I, C>>>, type<V<A<3, I>>>, type<A<3, I>>, type<A<2, V<C>>>, type<A<2, P<I, D>>>, type<P<V<I>, A<2, V<D>>>>,
      type<V<P<C, V<P<I, D>>>>>, type<V<V<V<C>>>>, type<P<C, S>>, type<V<P<V<I>, V<D>>>>, type<A<2, A<2, V<I>>>>, pointed<I>,
      pointed<V<I>>, pointed<S>, type<P<P<V<C>, C>, P<C, V<V<D>>>>>, type<V<A<2, V<P<C, C>>>>>, type<A<1, D>>, type<V<P<S, I>>>};
  auto items = probe::read_items();
  return probe::run_items(items, [](const json& it) { return f[it["ty"].get<int>() - 1](it["vals"]); });
}
