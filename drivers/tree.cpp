// the octree.  ip: 0 nd, 1 ref_level of the top node, 2..4 its coordinates, 5 shape mask (bit i: child i of the top node is refined), 6.. query
// buffers: 0 root size and origin[3], 1 query position[3], 2 out, 3 out
#include "Tree.hpp"
using namespace hexed;

static Mat<> org(double** b, int nd) {Mat<> o(nd); for (int i = 0; i < nd; ++i) o(i) = b[0][1 + i]; return o;}
struct Nodes
{
  Tree top;
  std::vector<Tree*> list; // top, then preorder
  Nodes(double** b, int* ip) : top(ip[0], b[0][0], org(b, ip[0]))
  {
    top.ref_level = ip[1];
    for (int i = 0; i < ip[0]; ++i) top.coords(i) = ip[2 + i];
    if (ip[5] < 0) {add(&top); return;}
    top.refine();
    auto ch = top.children();
    for (unsigned i = 0; i < ch.size(); ++i) if (ip[5] >> i & 1) ch[i]->refine();
    add(&top);
  }
  void add(Tree* t) {list.push_back(t); for (Tree* c : t->children()) add(c);}
  int index(Tree* t) {if (!t) return -1; for (unsigned i = 0; i < list.size(); ++i) if (list[i] == t) return i; return -2;}
};

extern "C" void tree_refine(double** b, int* ip)
{
  int nd = ip[0];
  Nodes n(b, ip);
  double* f = b[2];
  *f++ = n.list.size();
  *f++ = n.top.count();
  for (Tree* t : n.list) {
    *f++ = n.index(t->parent());
    *f++ = n.index(t->root());
    *f++ = t->is_root();
    *f++ = t->is_leaf();
    *f++ = t->children().size();
    *f++ = t->refinement_level();
    *f++ = t->get_status();
    for (int i = 0; i < nd; ++i) *f++ = t->coordinates()(i);
    *f++ = t->nominal_size();
    for (int i = 0; i < nd; ++i) *f++ = t->nominal_position()(i);
    for (int i = 0; i < nd; ++i) *f++ = t->center()(i);
    for (int i = 0; i < nd; ++i) *f++ = t->origin()(i);
    for (int i = 0; i < nd; ++i) *f++ = t->nominal_position().size() == nd;
  }
  n.top.unrefine();
  *f++ = n.top.is_leaf();
  *f++ = n.top.count();
}
extern "C" void tree_refine_twice(double** b, int* ip) {Nodes n(b, ip); n.top.refine();}

extern "C" void tree_find(double** b, int* ip)
{
  int nd = ip[0];
  Nodes n(b, ip);
  Eigen::VectorXi c(3), bias(3);
  for (int i = 0; i < 3; ++i) {c(i) = ip[7 + i]; bias(i) = ip[10 + i];}
  Tree* r = ip[13] ? n.top.find_leaf(ip[6], c(Eigen::seqN(0, nd))) : n.top.find_leaf(ip[6], c, bias);
  b[2][0] = n.index(r);
}
extern "C" void tree_find_pos(double** b, int* ip)
{
  Nodes n(b, ip);
  Mat<> p(3);
  for (int i = 0; i < 3; ++i) p(i) = b[1][i];
  b[2][0] = n.index(n.top.find_leaf(p));
}
// a query with too few components is rejected: ip[6] selects the function, ip[7] the number of components
extern "C" void tree_short(double** b, int* ip)
{
  Nodes n(b, ip);
  Eigen::VectorXi s = Eigen::VectorXi::Zero(ip[7]), l = Eigen::VectorXi::Zero(3);
  switch (ip[6]) {
    case 0: n.top.find_leaf(0, s, l); break;
    case 1: n.top.find_leaf(0, l, s); break;
    case 2: n.top.find_leaf(Mat<>(Mat<>::Zero(ip[7]))); break;
    case 3: n.top.find_neighbor(s); break;
    case 4: n.top.find_neighbors(s); break;
    case 5: Tree(ip[0], 1., Mat<>::Zero(ip[7])); break;
    case 6: n.top.flood_fill(Tree::unprocessed); break;
  }
}
extern "C" void tree_neighbors(double** b, int* ip)
{
  int nd = ip[0];
  Nodes n(b, ip);
  Eigen::VectorXi d(3);
  for (int i = 0; i < 3; ++i) d(i) = i < nd ? ip[6 + i] : 0;
  double* f = b[2];
  for (Tree* t : n.list) {
    *f++ = n.index(t->find_neighbor(d));
    auto ns = t->find_neighbors(d);
    *f++ = ns.size();
    for (unsigned i = 0; i < (1u << (nd - 1)); ++i) *f++ = i < ns.size() ? n.index(ns[i]) : -9;
  }
}
// statuses of all nodes before: ip[8..]
extern "C" void tree_flood(double** b, int* ip)
{
  Nodes n(b, ip);
  for (unsigned i = 0; i < n.list.size(); ++i) n.list[i]->set_status(ip[8 + i]);
  if (ip[6] < 0) n.list[-1 - ip[6]]->clear_status();
  else n.list[ip[6]]->flood_fill(ip[7]);
  for (unsigned i = 0; i < n.list.size(); ++i) b[2][i] = n.list[i]->get_status();
}
