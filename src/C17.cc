// C17: clique ordering yields a valid elimination structure.
#include "conex/clique_ordering.h"

#include "cliques.h"
#include "conex/supernodal_solver.h"

using gen::Cliques;
using pbt::Case;

namespace {

struct Structure {
  std::vector<int> order;
  Cliques supernodes, separators;
};

bool Has(const std::vector<int>& v, int x) {
  return std::find(v.begin(), v.end(), x) != v.end();
}

void CheckStructure(Case& c, const Cliques& sets, const Structure& s, int root,
                    bool connected_only) {
  const int k = sets.size();
  c.require((int)s.order.size() == k, "length of the order");
  std::vector<bool> used(k);
  for (int e : s.order) {
    c.require(e >= 0 && e < k && !used[e], "the order is a permutation");
    used[e] = true;
  }
  if (root >= 0) c.require(s.order.back() == root, "the root comes last");
  c.require((int)s.supernodes.size() == k && (int)s.separators.size() == k,
            "one supernode and separator per set");
  // Supernodes partition the variables.
  std::map<int, int> position;  // Variable -> position of its supernode.
  std::set<int> all;
  for (auto& v : sets) all.insert(v.begin(), v.end());
  for (int p = 0; p < k; p++)
    for (int v : s.supernodes[s.order[p]]) {
      c.require(all.count(v), "supernodes contain known variables only");
      c.require(!position.count(v), "supernodes are disjoint");
      position[v] = p;
    }
  c.require(position.size() == all.size(), "supernodes cover the variables");
  bool fill = false;
  std::set<std::pair<int, int>> pattern;
  for (int p = 0; p < k; p++) {
    int e = s.order[p];
    auto& sn = s.supernodes[e];
    auto& sep = s.separators[e];
    for (int v : sets[e])
      c.require(Has(sn, v) || Has(sep, v),
                "supernode and separator contain the set");
    for (int v : sep) {
      c.require(position.count(v), "separators contain known variables only");
      c.require(position[v] > p, "separator variables are eliminated later");
    }
    std::set<int> unique(sep.begin(), sep.end());
    c.require(unique.size() == sep.size(), "separator lists a variable once");
    if (sn.size() + sep.size() != sets[e].size()) fill = true;
    for (int a : sn) {
      for (int b : sn) pattern.insert({std::min(a, b), std::max(a, b)});
      for (int b : sep) pattern.insert({std::min(a, b), std::max(a, b)});
    }
  }
  for (auto& v : sets)
    for (int a : v)
      for (int b : v)
        c.require(pattern.count({std::min(a, b), std::max(a, b)}),
                  "the pattern contains the original pairs");
  // Eliminating a supernode couples its separator.
  for (int p = 0; p < k; p++) {
    int e = s.order[p];
    if (s.supernodes[e].empty()) continue;
    for (int a : s.separators[e])
      for (int b : s.separators[e])
        c.require(pattern.count({std::min(a, b), std::max(a, b)}),
                  "the pattern contains the fill");
  }
  c.label(fill ? "with fill" : "no fill");
  if (connected_only) {
    // Sets without a chain of overlaps between them are never coupled.
    std::map<int, int> comp;
    for (int v : all) comp[v] = v;
    for (size_t r = 0; r < all.size(); r++)
      for (auto& v : sets) {
        int m = comp[v[0]];
        for (int x : v) m = std::min(m, comp[x]);
        for (int x : v) comp[x] = m;
      }
    for (auto& pr : pattern)
      c.require(comp[pr.first] == comp[pr.second],
                "unconnected sets are not coupled");
  }
}

void Ordering(Case& c) {
  int n;
  std::string kind;
  Cliques sets = gen::CliqueSet(c, 10, 8, &n, &kind);
  int k = sets.size();
  // Variable labels may have gaps.
  if (c.chance(1, 4)) {
    int stride = c.integer(1, 3), shift = c.integer(0, 3);
    for (auto& s : sets)
      for (auto& v : s) v = v * stride + shift;
  }
  std::vector<int> valid;
  bool leafs = c.chance(1, 3);
  if (leafs) {
    for (int i = 0; i < k; i++) valid.push_back(c.boolean());
  }
  for (auto& s : sets) std::sort(s.begin(), s.end());
  int root = c.integer(-1, k - 1);
  c.label(kind);
  c.log() << "sets=" << gen::Str(sets) << " root=" << root
          << " valid_leaf=" << gen::Str(valid) << "\n";
  if (k >= 3) c.nontrivial();
  Structure s;
  if (leafs)
    conex::PickCliqueOrder(sets, valid, root, &s.order, &s.supernodes, &s.separators);
  else
    conex::PickCliqueOrder(sets, root, &s.order, &s.supernodes, &s.separators);
  CheckStructure(c, sets, s, root, !leafs);
}

void Data(Case& c) {
  int n;
  std::string kind;
  Cliques sets = gen::CliqueSet(c, 10, 8, &n, &kind);
  int k = sets.size();
  int root = c.integer(0, k - 1);
  std::vector<int> valid;
  bool leafs = c.boolean();
  for (int i = 0; leafs && i < k; i++) valid.push_back(c.boolean());
  c.label(kind);
  c.log() << "sets=" << gen::Str(sets) << " root=" << root
          << " valid_leaf=" << gen::Str(valid) << "\n";
  if (k >= 3) c.nontrivial();
  conex::MatrixData d = leafs ? conex::GetData(sets, valid, root)
                              : conex::GetData(sets, root);
  c.require(d.N == n, "number of variables");
  c.require((int)d.permutation.size() == n && (int)d.permutation_inverse.size() == n,
            "size of the permutation");
  std::vector<bool> used(n);
  for (int i = 0; i < n; i++) {
    int v = d.permutation_inverse[i];
    c.require(v >= 0 && v < n && !used[v], "permutation");
    used[v] = true;
    c.require(d.permutation[v] == i, "inverse permutation");
  }
  c.require((int)d.clique_order.size() == k && (int)d.cliques.size() == k &&
                (int)d.supernode_size.size() == k,
            "one block per set");
  // Positions of supernode variables are contiguous; separators are later and
  // sorted; labels and relabelled cliques describe the same sets.
  int next = 0;
  Structure s;
  s.order = d.clique_order;
  s.supernodes.resize(k);
  s.separators.resize(k);
  for (int e = 0; e < k; e++) {
    int size = d.supernode_size[e];
    auto& q = d.cliques[e];
    c.require(size >= 0 && size <= (int)q.size(), "supernode size");
    for (int i = 0; i < size; i++)
      c.require(q[i] == next++, "supernode positions are contiguous");
    for (size_t i = size; i < q.size(); i++) {
      c.require(q[i] >= next && q[i] < n, "separator positions are later");
      if (i > (size_t)size) c.require(q[i] > q[i - 1], "separator is sorted");
    }
    auto &sn = d.supernodes_original_labels[e], &sep = d.separators_original_labels[e];
    c.require((int)sn.size() == size && sn.size() + sep.size() == q.size(),
              "label sizes");
    for (int i = 0; i < size; i++)
      c.require(d.permutation[sn[i]] == q[i], "supernode labels");
    for (size_t i = 0; i < sep.size(); i++)
      c.require(d.permutation[sep[i]] == q[size + i], "separator labels");
    s.supernodes[s.order[e]] = sn;
    s.separators[s.order[e]] = sep;
  }
  c.require(next == n, "all variables are placed");
  CheckStructure(c, sets, s, root, !leafs);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C17";
  p.rule =
      "Collections of up to about ten variable sets (random, clique trees, "
      "cycles, disconnected, nested and repeated, singletons; optionally with "
      "gaps in the labels), any root and leaf restrictions; non-trivial: three "
      "sets or more";
  p.tests = {{"ordering", 150000, 3000000, Ordering},
             {"data", 150000, 3000000, Data}};
  p.assumptions = {"sets are non-empty and list each variable once"};
  return pbt::Main(argc, argv, p);
}
