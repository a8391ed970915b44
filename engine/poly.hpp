// Canonical multivariate polynomials over the rationals (hash-consed, never freed).
#pragma once
#include <gmpxx.h>

#include <cstdint>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <map>

#include <z3.h>

using MonoId = uint32_t;
struct Poly;

struct PVar {
  Z3_ast ast = nullptr;
  Poly const * sq_rule = nullptr; // v*v rewrites to this polynomial
  std::string name;
};

struct Mono {
  std::vector<uint32_t> v; // sorted variable ids, repeated for powers
  bool reducible = false;
};

struct Poly {
  std::vector<std::pair<MonoId, mpq_class>> t; // sorted by mono id, no zero coefficients
  Z3_ast ast = nullptr;
  size_t hash = 0;
  uint32_t id = 0;
  bool isConst() const { return t.empty() || (t.size() == 1 && t[0].first == 0); }
  bool isZero() const { return t.empty(); }
  mpq_class constVal() const { return t.empty() ? mpq_class(0) : t[0].second; }
};

using PP = Poly const *;

struct PolyCtx {
  Z3_context z3 = nullptr;
  Z3_sort real = nullptr;
  std::vector<PVar> vars;
  std::vector<Mono> monos;
  std::map<std::vector<uint32_t>, MonoId> mono_ix;
  std::unordered_map<uint64_t, MonoId> mul_cache;
  std::unordered_multimap<size_t, Poly *> table;
  std::unordered_map<Z3_ast, uint32_t> atom_ix;
  uint32_t next_id = 0;
  PP zero = nullptr, one = nullptr;

  void init(Z3_context c)
  {
    z3 = c;
    real = Z3_mk_real_sort(c);
    monos.push_back({});
    mono_ix[{}] = 0;
    zero = intern({});
    one = constant(1);
  }

  MonoId mono(std::vector<uint32_t> v)
  {
    auto it = mono_ix.find(v);
    if (it != mono_ix.end()) {
      return it->second;
    }
    Mono m;
    m.v = v;
    for (size_t i = 0; i + 1 < v.size(); ++i) {
      if (v[i] == v[i + 1] && vars[v[i]].sq_rule != nullptr) {
        m.reducible = true;
      }
    }
    auto const id = static_cast<MonoId>(monos.size());
    monos.push_back(m);
    mono_ix[v] = id;
    return id;
  }

  MonoId monoMul(MonoId a, MonoId b)
  {
    if (a == 0) {
      return b;
    }
    if (b == 0) {
      return a;
    }
    if (a > b) {
      std::swap(a, b);
    }
    uint64_t const key = (static_cast<uint64_t>(a) << 32) | b;
    auto it = mul_cache.find(key);
    if (it != mul_cache.end()) {
      return it->second;
    }
    std::vector<uint32_t> v(monos[a].v.size() + monos[b].v.size());
    std::merge(monos[a].v.begin(), monos[a].v.end(), monos[b].v.begin(), monos[b].v.end(),
               v.begin());
    MonoId const r = mono(v);
    mul_cache[key] = r;
    return r;
  }

  static size_t hashQ(mpq_class const & q)
  {
    size_t h = 1469598103934665603ULL;
    auto const mix = [&h](mpz_srcptr z) {
      h = (h ^ static_cast<size_t>(z->_mp_size + 7)) * 1099511628211ULL;
      int const n = std::abs(z->_mp_size);
      for (int i = 0; i < n; ++i) {
        h = (h ^ z->_mp_d[i]) * 1099511628211ULL;
      }
    };
    mix(q.get_num_mpz_t());
    mix(q.get_den_mpz_t());
    return h;
  }

  PP intern(std::vector<std::pair<MonoId, mpq_class>> t)
  {
    size_t h = 88172645463325252ULL;
    for (auto const & [m, c] : t) {
      h = (h ^ m) * 1099511628211ULL;
      h = (h ^ hashQ(c)) * 1099511628211ULL;
    }
    auto range = table.equal_range(h);
    for (auto it = range.first; it != range.second; ++it) {
      if (it->second->t == t) {
        return it->second;
      }
    }
    auto * p = new Poly;
    p->t = std::move(t);
    p->hash = h;
    p->id = next_id++;
    table.emplace(h, p);
    return p;
  }

  PP constant(mpq_class const & q)
  {
    if (q == 0) {
      return zero != nullptr ? zero : intern({});
    }
    std::vector<std::pair<MonoId, mpq_class>> t;
    t.emplace_back(0, q);
    return intern(std::move(t));
  }

  uint32_t newVar(Z3_ast a, std::string const & name)
  {
    vars.push_back({a, nullptr, name});
    auto const ix = static_cast<uint32_t>(vars.size() - 1);
    atom_ix[a] = ix;
    return ix;
  }
  PP var(uint32_t ix)
  {
    std::vector<std::pair<MonoId, mpq_class>> t;
    t.emplace_back(mono({ix}), 1);
    return intern(std::move(t));
  }
  // an arbitrary real-sorted z3 term used as an indeterminate
  PP atom(Z3_ast a)
  {
    auto it = atom_ix.find(a);
    if (it != atom_ix.end()) {
      return var(it->second);
    }
    return var(newVar(a, "atom"));
  }

  PP add(PP a, PP b)
  {
    if (a->isZero()) {
      return b;
    }
    if (b->isZero()) {
      return a;
    }
    std::vector<std::pair<MonoId, mpq_class>> r;
    r.reserve(a->t.size() + b->t.size());
    size_t i = 0;
    size_t j = 0;
    while (i < a->t.size() || j < b->t.size()) {
      if (j == b->t.size() || (i < a->t.size() && a->t[i].first < b->t[j].first)) {
        r.push_back(a->t[i++]);
      } else if (i == a->t.size() || b->t[j].first < a->t[i].first) {
        r.push_back(b->t[j++]);
      } else {
        mpq_class c = a->t[i].second + b->t[j].second;
        if (c != 0) {
          r.emplace_back(a->t[i].first, c);
        }
        ++i;
        ++j;
      }
    }
    return intern(std::move(r));
  }
  PP scale(PP a, mpq_class const & q)
  {
    if (q == 0) {
      return zero;
    }
    if (q == 1) {
      return a;
    }
    auto r = a->t;
    for (auto & x : r) {
      x.second *= q;
    }
    return intern(std::move(r));
  }
  PP neg(PP a) { return scale(a, -1); }
  PP sub(PP a, PP b) { return a == b ? zero : add(a, neg(b)); }

  PP reduceMono(MonoId m)
  {
    auto v = monos[m].v;
    PP r = one;
    std::vector<uint32_t> rest;
    for (size_t i = 0; i < v.size();) {
      if (i + 1 < v.size() && v[i] == v[i + 1] && vars[v[i]].sq_rule != nullptr) {
        r = mul(r, vars[v[i]].sq_rule);
        i += 2;
      } else {
        rest.push_back(v[i]);
        ++i;
      }
    }
    std::vector<std::pair<MonoId, mpq_class>> t;
    t.emplace_back(mono(rest), 1);
    return mul(r, intern(std::move(t)));
  }

  PP mul(PP a, PP b)
  {
    if (a->isZero() || b->isZero()) {
      return zero;
    }
    if (a->isConst()) {
      return scale(b, a->constVal());
    }
    if (b->isConst()) {
      return scale(a, b->constVal());
    }
    std::unordered_map<MonoId, mpq_class> acc;
    acc.reserve(a->t.size() * b->t.size());
    bool red = false;
    for (auto const & [ma, ca] : a->t) {
      for (auto const & [mb, cb] : b->t) {
        MonoId const m = monoMul(ma, mb);
        red = red || monos[m].reducible;
        acc[m] += ca * cb;
      }
    }
    std::vector<std::pair<MonoId, mpq_class>> r;
    r.reserve(acc.size());
    PP extra = zero;
    for (auto & [m, c] : acc) {
      if (c == 0) {
        continue;
      }
      if (red && monos[m].reducible) {
        extra = add(extra, scale(reduceMono(m), c));
      } else {
        r.emplace_back(m, c);
      }
    }
    std::sort(r.begin(), r.end(), [](auto const & x, auto const & y) { return x.first < y.first; });
    PP res = intern(std::move(r));
    if (!extra->isZero()) {
      res = add(res, extra);
    }
    return res;
  }

  Z3_ast numeral(mpq_class const & q) { return Z3_mk_numeral(z3, q.get_str().c_str(), real); }

  Z3_ast toZ3(PP p)
  {
    if (p->ast != nullptr) {
      return p->ast;
    }
    std::vector<Z3_ast> terms;
    for (auto const & [m, c] : p->t) {
      std::vector<Z3_ast> f;
      if (c != 1 || m == 0) {
        f.push_back(numeral(c));
      }
      for (auto const v : monos[m].v) {
        f.push_back(vars[v].ast);
      }
      terms.push_back(f.size() == 1 ? f[0]
                                    : Z3_mk_mul(z3, static_cast<unsigned>(f.size()), f.data()));
    }
    Z3_ast r = nullptr;
    if (terms.empty()) {
      r = Z3_mk_numeral(z3, "0", real);
    } else if (terms.size() == 1) {
      r = terms[0];
    } else {
      r = Z3_mk_add(z3, static_cast<unsigned>(terms.size()), terms.data());
    }
    const_cast<Poly *>(p)->ast = r;
    return r;
  }

  // exact division a / b when b divides a; nullptr otherwise. Uses a degree-lexicographic order.
  bool monoLess(MonoId a, MonoId b) const
  {
    auto const & x = monos[a].v;
    auto const & y = monos[b].v;
    if (x.size() != y.size()) {
      return x.size() < y.size();
    }
    return y < x; // smaller variable ids are larger
  }
  PP divExact(PP a, PP b)
  {
    if (a->isZero()) {
      return zero;
    }
    if (b->isConst()) {
      return scale(a, 1 / b->constVal());
    }
    if (a->t.size() > 400 || b->t.size() > 200 || b->t.size() > a->t.size() * 4) {
      return nullptr;
    }
    auto const lead = [this](PP p) {
      size_t best = 0;
      for (size_t i = 1; i < p->t.size(); ++i) {
        if (monoLess(p->t[best].first, p->t[i].first)) {
          best = i;
        }
      }
      return p->t[best];
    };
    for (auto const & [m, c] : b->t) {
      for (auto v : monos[m].v) {
        if (vars[v].sq_rule != nullptr && b->t.size() > 1) {
          return nullptr;
        }
      }
    }
    auto const lb = lead(b);
    PP q = zero;
    PP r = a;
    int steps = 0;
    while (!r->isZero()) {
      if (++steps > 200) {
        return nullptr;
      }
      auto const la = lead(r);
      auto const & va = monos[la.first].v;
      auto const & vb = monos[lb.first].v;
      if (!std::includes(va.begin(), va.end(), vb.begin(), vb.end())) {
        return nullptr;
      }
      std::vector<uint32_t> diff;
      std::set_difference(va.begin(), va.end(), vb.begin(), vb.end(), std::back_inserter(diff));
      std::vector<std::pair<MonoId, mpq_class>> t;
      mpq_class const cq = la.second / lb.second;
      t.emplace_back(mono(diff), cq);
      PP const tq = intern(std::move(t));
      q = add(q, tq);
      r = sub(r, mul(tq, b));
      if (!r->isZero() && !monoLess(lead(r).first, la.first)) {
        return nullptr;
      }
    }
    return q;
  }
};
