// Bodies of non-inline libstdc++ functions, compiled with the code under verification (trusted: stand-ins for libstdc++.so).
#include <string>
#include <map>
#include <unordered_map>
#include <stdexcept>
#include <vector>
#include <sstream>
template class std::basic_string<char>;
namespace std {
_GLIBCXX_PURE _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right != 0) { x = x->_M_right; while (x->_M_left != 0) x = x->_M_left; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x; }
_GLIBCXX_PURE const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_GLIBCXX_PURE _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left != 0) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right != 0) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x; }
_GLIBCXX_PURE const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
// balancing is omitted: it does not change the represented set
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
static void transplant(_Rb_tree_node_base* u, _Rb_tree_node_base* v, _Rb_tree_node_base& h) {
  if (h._M_parent == u) h._M_parent = v; else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v;
  if (v) v->_M_parent = u->_M_parent;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  if (h._M_left == z) h._M_left = _Rb_tree_increment(z);
  if (h._M_right == z) { if (z->_M_left) { _Rb_tree_node_base* y = z->_M_left; while (y->_M_right) y = y->_M_right; h._M_right = y; } else h._M_right = z->_M_parent; }
  if (!z->_M_left) transplant(z, z->_M_right, h);
  else if (!z->_M_right) transplant(z, z->_M_left, h);
  else { _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { transplant(y, y->_M_right, h); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    transplant(z, y, h); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
  return z; }
namespace __detail {
  pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const {
    if (e + i > b) return pair<bool, size_t>(true, 2 * (e + i) + 1); return pair<bool, size_t>(false, 0); }
  size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { return n | 1; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed; const char* c = (const char*)p; for (size_t i = 0; i < n; ++i) h = h * 31 + (unsigned char)c[i]; return h; }
}
// function-template instantiations of basic_string not covered by the class instantiation
static void use(std::string& s, const std::string& t, const char* c) { s = t + t; s = t + c; s = c + t; s = std::string(c) + "x"; s += std::to_string(3); s += std::to_string(3u); s += std::to_string(3ul); }
void (*vc_use)(std::string&, const std::string&, const char*) = use;
