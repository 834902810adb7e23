// P29: the containers kept in include/CoMMA/deprecated, driven by random
// histories next to standard containers.
#include <memory>
#include <optional>

#include "core.h"

#include "CoMMA/CoMMADefs.h"
#include "CoMMA/deprecated/Bimap.h"
#include "CoMMA/deprecated/Priority_Pair.h"
#include "CoMMA/deprecated/Queue.h"
#include "CoMMA/deprecated/Tree.h"
#include "CoMMA/deprecated/templateHelpers.h"
using namespace vf;
using namespace comma;

static void queue(Rng &r, Ctx &c) {
  Queue<long> q;
  std::vector<long> model;  // front first
  std::string hist;
  Hash h;
  const long n = r.in(5, 60);
  for (long k = 0; k < n; ++k) {
    const bool push = r.chance(0.55);
    if (push) {
      const long v = r.in(-5, 100);
      q.push(v);
      model.push_back(v);
      hist += " push " + std::to_string(v);
      h.add(1).add(static_cast<uint64_t>(v));
      c.count("queue_pushes");
    } else {
      const long want = model.empty() ? -1 : model.front();
      hist += " pop";
      h.add(2);
      c.count(model.empty() ? "queue_pops_when_empty" : "queue_pops");
      if (!model.empty()) model.erase(model.begin());
      const long got = q.pop();
      c.require(got == want, "queue", [&] {
        return "pop gave " + std::to_string(got) + " instead of " + std::to_string(want) + " after" + hist;
      });
    }
    const long top = q.top(), want = model.empty() ? -1 : model.front();
    c.require(top == want && q.empty() == model.empty(), "queue", [&] {
      return "top is " + std::to_string(top) + " instead of " + std::to_string(want) + ", empty " + std::to_string(q.empty())
             + " after" + hist;
    });
  }
  c.nontrivial(h.h);
}

static void pairs(Rng &r, Ctx &c) {
  using PP = Priority_Pair<double, long>;
  std::vector<std::pair<double, long>> v;
  const long n = r.in(2, 25);
  Hash h;
  for (long i = 0; i < n; ++i) {
    const double a = r.chance(0.7) ? static_cast<double>(r.in(-3, 3)) : r.real(-3, 3);
    const long b = r.in(-3, 6);
    v.emplace_back(a, b);
    h.addd(a).add(static_cast<uint64_t>(b));
  }
  // Decreasing first element, increasing second
  auto before = [](const std::pair<double, long> &x, const std::pair<double, long> &y) {
    return x.first > y.first || (x.first == y.first && x.second < y.second);
  };
  std::set<PP> st;
  for (size_t i = 0; i < v.size(); ++i) {
    const PP x(v[i].first, v[i].second);
    st.insert(x);
    st.emplace(v[i].first, v[i].second);
    c.require(x.first() == v[i].first && x.second() == v[i].second, "pair", [] { return std::string("elements of a pair"); });
    for (size_t j = 0; j < v.size(); ++j) {
      const PP y(v[j].first, v[j].second);
      c.require((x < y) == before(v[i], v[j]) && (x == y) == (v[i] == v[j]), "pair", [&] {
        std::ostringstream o;
        o.precision(17);
        o << "(" << v[i].first << "," << v[i].second << ") and (" << v[j].first << "," << v[j].second << "): less "
          << (x < y) << " equal " << (x == y);
        return o.str();
      });
      c.count("pairs_compared");
    }
  }
  std::sort(v.begin(), v.end(), before);
  v.erase(std::unique(v.begin(), v.end()), v.end());
  bool ok = v.size() == st.size();
  size_t i = 0;
  for (const auto &x : st) {
    if (!ok) break;
    ok = x.first() == v[i].first && x.second() == v[i].second;
    ++i;
  }
  c.require(ok, "pair-set", [] { return std::string("order of a set of pairs"); });
  c.nontrivial(h.h);
}

static void bimap(Rng &r, Ctx &c) {
  Bimap<long, std::string> bm;
  std::map<long, std::string> model;
  std::string hist;
  Hash h;
  auto name = [&] { return "s" + std::to_string(r.in(0, 500)); };
  auto used = [&](const std::string &s) {
    return std::any_of(model.begin(), model.end(), [&](const auto &kv) { return kv.second == s; });
  };
  const long n = r.in(5, 50);
  for (long k = 0; k < n; ++k) {
    const long op = r.in(0, 9);
    if (op < 5 || model.empty()) {
      const long a = r.in(0, 200);
      const std::string b = name();
      if (model.count(a) || used(b)) continue;
      bm.insert(a, b);
      model[a] = b;
      hist += " insert " + std::to_string(a) + "-" + b;
      c.count("bimap_insertions");
      h.add(1).add(static_cast<uint64_t>(a));
    } else {
      const auto it = std::next(model.begin(), r.in(0, static_cast<long>(model.size()) - 1));
      const long a = it->first;
      const std::string b = it->second;
      if (op < 7) {
        bm.erase_B(a);
        model.erase(it);
        hist += " erase " + std::to_string(a);
        c.count("bimap_removals");
        h.add(2).add(static_cast<uint64_t>(a));
      } else if (op == 7) {
        const long an = r.in(0, 200);
        if (model.count(an)) continue;
        bm.update_nodeB(a, an);
        model.erase(it);
        model[an] = b;
        hist += " rename " + std::to_string(a) + ">" + std::to_string(an);
        c.count("bimap_renamings");
        h.add(3).add(static_cast<uint64_t>(an));
      } else if (op == 8) {
        const std::string bn = name();
        if (used(bn)) continue;
        bm.update_nodeA(b, bn);
        model[a] = bn;
        hist += " rename " + b + ">" + bn;
        c.count("bimap_renamings");
        h.add(4).add(static_cast<uint64_t>(a));
      } else {
        // Not there: nothing happens
        bm.update_nodeB(1000 + r.in(0, 9), 2000);
        bm.update_nodeA("none", "other");
        hist += " rename-missing";
        c.count("bimap_missing");
      }
    }
    bool ok = bm.lung() == model.size() && bm.empty() == model.empty();
    for (const auto &[x, y] : model) ok = ok && bm.get_B(x) == y && bm.get_A(y) == x;
    if (!c.require(ok, "bimap", [&] { return "size or associations after" + hist; })) return;
  }
  std::ostringstream o, want;
  auto *old = std::cout.rdbuf(o.rdbuf());
  bm.print();
  std::cout.rdbuf(old);
  for (const auto &[x, y] : model) want << '[' << x << "] = " << y << "; ";
  c.require(o.str() == want.str(), "bimap-print", [&] { return "printed '" + o.str() + "' instead of '" + want.str() + "'"; });
  c.nontrivial(h.h);
}

using NodeT = Node<unsigned long, double, int>;
using TreeT = Tree<unsigned long, double, int>;
using NodeP = std::shared_ptr<NodeT>;

static std::vector<NodeP> sons(const NodeP &f) {
  std::vector<NodeP> v;
  for (NodeP p = f->_left_son_idx; p && v.size() < 10000; p = p->_right_idx) v.push_back(p);
  return v;
}

static void tree(Rng &r, Ctx &c) {
  NodeP root = std::make_shared<NodeT>(9999, 0.);
  TreeT t(root);
  struct Son {
    unsigned long id;
    double vol;
    std::vector<std::pair<unsigned long, double>> sub;
  };
  std::vector<Son> model;
  std::vector<NodeP> all{root};
  std::string hist;
  Hash h;
  unsigned long fresh = 0;
  const long n = r.in(3, 30);
  bool ok = true;
  for (long k = 0; k < n && ok; ++k) {
    const long op = r.in(0, 9);
    if (op < 4 || model.empty()) {
      const unsigned long id = fresh++;
      const double v = r.real(0, 2);
      t.insertSon(9999, id, v, 1);
      model.push_back({id, v, {}});
      hist += " add " + std::to_string(id);
      c.count("tree_insertions");
      h.add(1);
    } else if (op < 6) {
      Son &s = model[r.in(0, static_cast<long>(model.size()) - 1)];
      const unsigned long id = fresh++;
      const double v = r.real(0, 2);
      t.insertSon(s.id, id, v, 0);
      s.sub.emplace_back(id, v);
      hist += " add " + std::to_string(id) + " below " + std::to_string(s.id);
      c.count("tree_insertions_below");
      h.add(2).add(s.id);
    } else if (op < 9) {
      const size_t i = r.in(0, static_cast<long>(model.size()) - 1);
      hist += " remove " + std::to_string(model[i].id) + (model.size() == 1 ? " (only)" : i == 0 ? " (first)" : i + 1 == model.size() ? " (last)" : " (inner)");
      h.add(3).add(model[i].id);
      c.count(model.size() == 1           ? "tree_removals_only"
                : i == 0                  ? "tree_removals_first"
                : i + 1 == model.size()   ? "tree_removals_last"
                                          : "tree_removals_inner");
      t.deleteNode(model[i].id);
      model.erase(model.begin() + static_cast<long>(i));
    } else {
      t.deleteNode(5000);
      hist += " remove-missing";
      c.count("tree_missing");
    }
    auto same = [&](const NodeP &f, const std::vector<std::pair<unsigned long, double>> &want) {
      const auto got = sons(f);
      if (got.size() != want.size() || f->_sonc != static_cast<int>(want.size())) return false;
      for (size_t i = 0; i < got.size(); ++i)
        if (got[i]->_index != want[i].first || got[i]->_volume != want[i].second || got[i]->_father != f
            || got[i]->_left_idx != (i ? got[i - 1] : nullptr))
          return false;
      return true;
    };
    std::vector<std::pair<unsigned long, double>> top;
    for (const auto &s : model) top.emplace_back(s.id, s.vol);
    ok = c.require(same(t._root, top), "tree", [&] { return "children of the root after" + hist; });
    if (!ok) break;
    const auto first = sons(t._root);
    for (size_t i = 0; i < model.size() && ok; ++i) {
      ok = c.require(same(first[i], model[i].sub), "tree", [&] { return "second level after" + hist; });
      const NodeP f = t.search(t._root->_left_son_idx, model[i].id);
      ok = ok && c.require(f == first[i], "tree-search", [&] { return "search of " + std::to_string(model[i].id) + " after" + hist; });
    }
    const NodeP none = t.search(t._root->_left_son_idx, 5000);
    c.require(none == nullptr, "tree-search", [&] { return "search of a missing node after" + hist; });
    t.print();
    for (const auto &s : first) {
      all.push_back(s);
      for (const auto &q : sons(s)) all.push_back(q);
    }
  }
  // The nodes own each other: undo that
  for (const auto &p : all) {
    p->_father.reset();
    p->_left_idx.reset();
    p->_right_idx.reset();
    p->_left_son_idx.reset();
  }
  c.nontrivial(h.h);
}

static void one(Rng &r, Ctx &c, uint64_t, long k) {
  switch (k % 4) {
    case 0: queue(r, c); break;
    case 1: pairs(r, c); break;
    case 2: bimap(r, c); break;
    default: tree(r, c);
  }
  double a = 1.;
  int b = static_cast<int>(r.in(2, 9));
  fill_value<false>(a, b);
  c.require(a == 1., "fill", [] { return std::string("assigned although disabled"); });
  fill_value<true>(a, b);
  c.require(a == b, "fill", [] { return std::string("not assigned although enabled"); });
}

int main(int argc, char **argv) { return driver_main(argc, argv, 129, one); }
