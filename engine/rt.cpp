// Library functions the code under test links against, supplied as IR.
#include <bits/stl_tree.h>
#include <bits/stl_list.h>
#include <string>
#include <cstdlib>
#include <cstring>
namespace std {
  _Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x; }
  const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
  _Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
    else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
    return x; }
  const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
  // unbalanced binary search tree: same ordering semantics
  void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    h._M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
  _Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
    _Rb_tree_node_base *l = z->_M_left, *r = z->_M_right, *rep;
    _Rb_tree_node_base *next = 0, *prev = 0;
    if (h._M_left == z) { next = _Rb_tree_increment(z); }
    if (h._M_right == z) { if (h._M_left == z) prev = &h; else prev = _Rb_tree_decrement(z); }
    if (!l) rep = r; else if (!r) rep = l; else {
      _Rb_tree_node_base *m = r; while (m->_M_left) m = m->_M_left;
      m->_M_left = l; l->_M_parent = m; 
      if (m != r) { m->_M_parent->_M_left = m->_M_right; if (m->_M_right) m->_M_right->_M_parent = m->_M_parent; m->_M_right = r; r->_M_parent = m; }
      rep = m; }
    _Rb_tree_node_base *p = z->_M_parent;
    if (h._M_parent == z) h._M_parent = rep; else if (p->_M_left == z) p->_M_left = rep; else p->_M_right = rep;
    if (rep) rep->_M_parent = p;
    if (next) h._M_left = next; if (prev) h._M_right = prev;
    if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
    return z; }
  namespace __detail {
    void _List_node_base::_M_hook(_List_node_base *const p) throw() { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
    void _List_node_base::_M_unhook() throw() { _List_node_base *n = this->_M_next, *p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
    void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) throw() {
      if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
  }
}
extern "C" void qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  char *p = (char *)b; char *t = (char *)malloc(sz);
  for (size_t i = 1; i < n; i++) { size_t j = i; while (j > 0 && cmp(p + (j - 1) * sz, p + j * sz) > 0) { memcpy(t, p + j * sz, sz); memcpy(p + j * sz, p + (j - 1) * sz, sz); memcpy(p + (j - 1) * sz, t, sz); j--; } }
  free(t);
}

template class std::basic_string<char>;
