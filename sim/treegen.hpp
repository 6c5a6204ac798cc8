// Map model of a kinematic tree, shared by the tree checks.
#pragma once
#include "kdlgen.hpp"
namespace gen {
struct Node { std::string parent; Seg s; int q = -1; };
struct TModel {
    std::string root; std::map<std::string, Node> n; int nj = 0;
    bool has(const std::string& k) const { return k == root || n.count(k); }
    bool add(const Seg& g, const std::string& hook) { if (!has(hook) || has(g.name)) return false; Node x; x.parent = hook; x.s = g; x.q = g.moving() ? nj++ : -1; n[g.name] = x; return true; }
    bool under(const std::string& k, const std::string& top) const { std::string c = k; while (c != root) { if (c == top) return true; c = n.at(c).parent; } return top == root; }
    // parents before children
    ref::Model model(std::map<std::string, int>& idx) const {
        ref::Model m; m.nj = nj; idx.clear(); idx[root] = -1; size_t left = n.size();
        while (left) { size_t was = left; for (auto& k : n) if (!idx.count(k.first) && idx.count(k.second.parent)) { Seg g = k.second.s; g.parent = idx[k.second.parent]; g.jnt = k.second.q; idx[k.first] = (int)m.s.size(); m.s.push_back(g); --left; } if (left == was) break; }
        return m;
    }
    std::vector<std::string> names() const { std::vector<std::string> v{root}; for (auto& k : n) v.push_back(k.first); return v; }
};
}  // namespace gen
