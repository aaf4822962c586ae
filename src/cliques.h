// Generators of variable-set collections and a dense reference for their
// elimination structure.
#pragma once
#include <algorithm>
#include <map>
#include <set>

#include "gen.h"

namespace gen {
using Cliques = std::vector<std::vector<int>>;

inline Cliques RelabelAndShuffle(Case& c, Cliques s, int n) {
  auto p = c.permutation(n);
  for (auto& k : s) {
    for (auto& v : k) v = p[v];
    auto q = c.permutation(k.size());
    auto t = k;
    for (size_t i = 0; i < k.size(); i++) t[i] = k[q[i]];
    k = t;
  }
  auto q = c.permutation(s.size());
  Cliques t;
  for (int i : q) t.push_back(s[i]);
  return t;
}

// Variable sets over 0..n-1 that together cover every variable.
inline Cliques CliqueSet(Case& c, int max_vars, int max_sets, int* n_out,
                         std::string* kind, bool* junction_tree = nullptr) {
  int n = 0;
  Cliques s;
  bool tree = false;
  switch (c.integer(0, 6)) {
    case 0:
    case 1: {
      *kind = "random sets";
      n = c.integer(1, max_vars);
      int m = c.integer(1, max_sets);
      for (int i = 0; i < m; i++) s.push_back(c.subset(n, c.integer(1, std::min(n, 4))));
      break;
    }
    case 2: {
      *kind = "clique tree";
      // Each new set takes part of an earlier one and adds new variables.
      int m = c.integer(1, max_sets);
      int first = c.integer(1, 3);
      s.push_back({});
      for (int i = 0; i < first; i++) s[0].push_back(n++);
      for (int k = 1; k < m && n < max_vars; k++) {
        auto& par = s[c.integer(0, k - 1)];
        auto pick = c.subset(par.size(), c.integer(0, par.size()));
        std::vector<int> v;
        for (int i : pick) v.push_back(par[i]);
        int add = c.integer(v.empty() ? 1 : 0, 2);
        for (int i = 0; i < add && n < max_vars; i++) v.push_back(n++);
        if (v.empty()) v.push_back(0);
        s.push_back(v);
      }
      tree = true;
      break;
    }
    case 3: {
      *kind = "cycle of sets";
      n = c.integer(3, std::max(3, max_vars));
      int w = c.integer(1, 2);
      for (int i = 0; i < n; i += w) {
        std::vector<int> v;
        for (int j = 0; j <= w; j++) v.push_back((i + j) % n);
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
        s.push_back(v);
      }
      break;
    }
    case 4: {
      *kind = "disconnected groups";
      int groups = c.integer(2, 4);
      for (int g = 0; g < groups && n < max_vars; g++) {
        int k = c.integer(1, std::max(1, std::min(4, max_vars - n)));
        int m = c.integer(1, 3);
        for (int i = 0; i < m; i++) {
          auto v = c.subset(k, c.integer(1, k));
          for (auto& x : v) x += n;
          s.push_back(v);
        }
        n += k;
      }
      break;
    }
    case 5: {
      *kind = "nested and repeated sets";
      n = c.integer(1, max_vars);
      std::vector<int> all;
      for (int i = 0; i < n; i++) all.push_back(i);
      if (c.boolean()) s.push_back(all);
      int m = c.integer(1, max_sets);
      for (int i = 0; i < m; i++) {
        if (!s.empty() && c.boolean()) {
          auto& b = s[c.integer(0, s.size() - 1)];
          auto pick = c.subset(b.size(), c.integer(1, b.size()));
          std::vector<int> v;
          for (int j : pick) v.push_back(b[j]);
          s.push_back(v);
        } else {
          s.push_back(c.subset(n, c.integer(1, n)));
        }
      }
      break;
    }
    default: {
      *kind = "singletons and pairs";
      n = c.integer(1, max_vars);
      int m = c.integer(1, max_sets);
      for (int i = 0; i < m; i++) s.push_back(c.subset(n, c.integer(1, std::min(2, n))));
    }
  }
  // Cover what is left.
  std::vector<bool> seen(n);
  for (auto& k : s)
    for (int v : k) seen[v] = true;
  for (int i = 0; i < n; i++)
    if (!seen[i]) {
      if (!s.empty() && c.boolean() && !tree)
        s[c.integer(0, s.size() - 1)].push_back(i);
      else
        s.push_back({i});
    }
  *n_out = n;
  if (junction_tree) *junction_tree = tree;
  return RelabelAndShuffle(c, s, n);
}

inline std::string Str(const Cliques& s) {
  std::ostringstream o;
  for (auto& k : s) o << Str(k);
  return o.str();
}
}  // namespace gen
