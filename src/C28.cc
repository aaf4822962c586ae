// C28: tree paths, chordality and perfect orderings.
#include "conex/tree_utils.h"

#include <set>

#include "conex/elimination_ordering.h"
#include "gen.h"

using gen::MatrixXd;
using gen::VectorXd;
using pbt::Case;

namespace {

using Graph = std::vector<std::vector<bool>>;

void Path(Case& c) {
  int n = c.integer(1, 12);
  std::vector<int> label = c.permutation(n), parent(n), depth(n);
  parent[label[0]] = label[0];
  depth[label[0]] = 0;
  int style = c.integer(0, 2);
  for (int i = 1; i < n; i++) {
    int p = style == 0 ? c.integer(0, i - 1)
                       : style == 1 ? i - 1 - c.integer(0, std::min(i - 1, 1))
                                    : c.integer(0, std::min(i - 1, 2));
    parent[label[i]] = label[p];
    depth[label[i]] = depth[label[p]] + 1;
  }
  int x = c.integer(0, n - 1), y = c.integer(0, n - 1);
  c.log() << "parent=" << gen::Str(parent) << " x=" << x << " y=" << y << "\n";
  auto path = conex::PathInTree(x, y, parent, depth);
  // Model: ancestors of x, first one that is an ancestor of y.
  std::vector<int> ax, ay;
  for (int v = x;; v = parent[v]) {
    ax.push_back(v);
    if (parent[v] == v) break;
  }
  for (int v = y;; v = parent[v]) {
    ay.push_back(v);
    if (parent[v] == v) break;
  }
  while (ax.size() > 1 && ay.size() > 1 && ax[ax.size() - 2] == ay[ay.size() - 2]) {
    ax.pop_back();
    ay.pop_back();
  }
  int lca = ax.back();
  std::set<int> want(ax.begin(), ax.end());
  want.insert(ay.begin(), ay.end());
  std::set<int> got(path.begin(), path.end());
  c.require(got.size() == path.size(), "no node is repeated");
  c.require(got == want, "nodes of the path: " + gen::Str(path));
  if (x != y && lca != x && lca != y) {
    c.label("two branches");
    c.nontrivial();
  }
}

// Fill created by eliminating in the order 0..n-1?
bool Perfect(Graph g, const std::vector<int>& order) {
  int n = g.size();
  std::vector<bool> gone(n);
  for (int k = 0; k < n; k++) {
    int v = order[k];
    gone[v] = true;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < i; j++)
        if (!gone[i] && !gone[j] && g[v][i] && g[v][j] && !g[i][j]) return false;
  }
  return true;
}

// Repeated removal of simplicial vertices.
bool Chordal(const Graph& g) {
  int n = g.size();
  std::vector<bool> gone(n);
  for (int round = 0; round < n; round++) {
    int found = -1;
    for (int v = 0; v < n && found < 0; v++) {
      if (gone[v]) continue;
      bool ok = true;
      for (int i = 0; i < n && ok; i++)
        for (int j = 0; j < i && ok; j++)
          if (!gone[i] && !gone[j] && i != v && j != v && g[v][i] && g[v][j] &&
              !g[i][j])
            ok = false;
      if (ok) found = v;
    }
    if (found < 0) return false;
    gone[found] = true;
  }
  return true;
}

Graph Generate(Case& c, int n, std::string* kind) {
  Graph g(n, std::vector<bool>(n));
  auto add = [&](int i, int j) {
    if (i != j) g[i][j] = g[j][i] = true;
  };
  auto lab = c.permutation(n);
  int k = c.integer(0, 4);
  if (k == 0) {
    *kind = "random";
    int density = c.integer(1, 9);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < i; j++)
        if (c.chance(density, 10)) add(i, j);
  } else if (k == 1) {
    *kind = "chordal by construction";
    // Add vertices whose earlier neighbours form a clique.
    for (int i = 1; i < n; i++) {
      int p = c.integer(0, i - 1);
      if (c.chance(1, 8)) continue;
      for (int j = 0; j < p; j++)
        if (g[lab[p]][lab[j]] && c.boolean()) {
          bool ok = true;
          for (int l = 0; l < i && ok; l++)
            if (g[lab[i]][lab[l]] && !g[lab[j]][lab[l]]) ok = false;
          if (ok) add(lab[i], lab[j]);
        }
      add(lab[i], lab[p]);
    }
  } else if (k == 2) {
    *kind = "long cycle with chords";
    int len = c.integer(std::min(n, 3), n);
    for (int i = 0; i < len && len >= 3; i++) add(lab[i], lab[(i + 1) % len]);
    int chords = c.integer(0, len);
    for (int i = 0; i < chords; i++)
      add(lab[c.integer(0, len - 1)], lab[c.integer(0, len - 1)]);
  } else if (k == 3) {
    *kind = "cliques on a tree";
    for (int i = 0; i + 1 < n; i++) {
      int w = c.integer(1, 3);
      for (int a = i; a <= std::min(n - 1, i + w); a++)
        for (int b = i; b < a; b++) add(lab[a], lab[b]);
    }
  } else {
    *kind = "complement of a sparse graph";
    for (int i = 0; i < n; i++)
      for (int j = 0; j < i; j++)
        if (!c.chance(1, 4)) add(i, j);
  }
  return g;
}

void Graphs(Case& c) {
  int n = c.integer(1, 9);
  std::string kind;
  Graph g = Generate(c, n, &kind);
  double diag = c.pick<double>({0, 1});
  MatrixXd G = MatrixXd::Identity(n, n) * diag;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      if (g[i][j]) G(i, j) = 1;
  c.log() << kind << " G=" << gen::Str(G) << "\n";
  bool chordal = Chordal(g);
  c.label(kind);
  c.label(chordal ? "chordal" : "not chordal");
  int edges = (G.sum() - diag * n) / 2;
  if (n >= 4 && edges >= n && edges < n * (n - 1) / 2) c.nontrivial();
  c.require(conex::IsChordal(G) == chordal, "chordality");
  // Is the given numbering perfect?
  std::vector<int> id(n);
  for (int i = 0; i < n; i++) id[i] = i;
  bool perfect = Perfect(g, id);
  c.label(perfect ? "perfectly numbered" : "not perfectly numbered");
  MatrixXd weighted = G;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < i; j++)
      if (g[i][j]) weighted(i, j) = weighted(j, i) = c.boolean() ? 1 : c.real(-3, -.5);
  c.require(conex::IsPerfectlyOrdered(G) == perfect, "perfect-ordering test");
  c.require(conex::IsPerfectlyOrdered(weighted) == perfect,
            "perfect-ordering test on a weighted pattern");
  // Elimination ordering.
  auto P = conex::EliminationOrdering(G);
  std::vector<int> order(n);
  std::set<int> seen;
  for (int i = 0; i < n; i++) {
    order[i] = P.indices()[i];
    c.require(order[i] >= 0 && order[i] < n, "index in range");
    seen.insert(order[i]);
  }
  c.require((int)seen.size() == n, "the ordering is a permutation");
  if (chordal) {
    c.require(Perfect(g, order), "ordering of a chordal graph has no fill");
    MatrixXd Gp = P.transpose() * G * P;
    c.require(conex::IsPerfectlyOrdered(Gp), "reordered graph is accepted");
  }
  // Maximum degree vertices.
  int best = -1;
  std::set<int> argmax;
  for (int i = 0; i < n; i++) {
    int d = 0;
    for (int j = 0; j < n; j++) d += g[i][j];
    if (d > best) argmax.clear(), best = d;
    if (d == best) argmax.insert(i);
  }
  VectorXd md = conex::MaximumDegreeVertices(G);
  std::set<int> got;
  for (int i = 0; i < md.size(); i++) got.insert(int(md(i)));
  c.require(got == argmax, "vertices of maximal degree");
  c.require((int)got.size() == md.size(), "each listed once");
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C28";
  p.rule =
      "Rooted trees up to 12 nodes with relabelled nodes and random pairs; "
      "graphs up to 9 vertices (random, chordal by construction, cycles with "
      "chords, clique chains, complements); non-trivial: a path with two "
      "branches, or a graph with a cycle that is not complete";
  p.tests = {{"path", 200000, 4000000, Path},
             {"graphs", 150000, 3000000, Graphs}};
  p.assumptions = {
      "adjacency matrices are symmetric with 0/1 entries (weighted for the "
      "perfect-ordering test) and a constant diagonal"};
  return pbt::Main(argc, argv, p);
}
