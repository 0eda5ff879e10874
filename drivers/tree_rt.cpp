// the non-template part of libstdc++'s std::map/std::set (an unbalanced search tree: the order of the elements is what the containers rely on)
#include <map>
namespace std
{
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw ()
{
  if (x->_M_right) {x = x->_M_right; while (x->_M_left) x = x->_M_left;}
  else {
    auto y = x->_M_parent;
    while (x == y->_M_right) {x = y; y = y->_M_parent;}
    if (x->_M_right != y) x = y;
  }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw () {return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw ()
{
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; // end()
  else if (x->_M_left) {auto y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y;}
  else {
    auto y = x->_M_parent;
    while (x == y->_M_left) {x = y; y = y->_M_parent;}
    x = y;
  }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw () {return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw ()
{
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x; // also makes leftmost = x when p == &h
    if (p == &h) {h._M_parent = x; h._M_right = x;}
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw ()
{
  _Rb_tree_node_base* nxt = nullptr; // replacement of z
  if (h._M_left == z) h._M_left = z->_M_right || z->_M_parent != &h ? _Rb_tree_increment(z) : &h;
  if (h._M_right == z) h._M_right = z->_M_left || z->_M_parent != &h ? _Rb_tree_decrement(z) : &h;
  if (!z->_M_left) nxt = z->_M_right;
  else if (!z->_M_right) nxt = z->_M_left;
  else {
    auto y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y != z->_M_right) {
      y->_M_parent->_M_left = y->_M_right;
      if (y->_M_right) y->_M_right->_M_parent = y->_M_parent;
      y->_M_right = z->_M_right; y->_M_right->_M_parent = y;
    }
    y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    nxt = y;
  }
  if (nxt) nxt->_M_parent = z->_M_parent;
  if (h._M_parent == z) h._M_parent = nxt;
  else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = nxt;
  else z->_M_parent->_M_right = nxt;
  return z;
}
}
