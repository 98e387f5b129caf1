// Out-of-line parts of the C++ library that the program (or a refactoring of it) may need, compiled to IR with it.
#include <estream.h>
#include <set>
#include <unordered_map>
#include <list>
template class std::basic_string<char>;
namespace std { void __throw_length_error(const char*) { abort(); } void __throw_logic_error(const char*) { abort(); } void __throw_out_of_range(const char*) { abort(); } void __throw_out_of_range_fmt(const char*, ...) { abort(); } void __throw_bad_array_new_length() { abort(); } void __throw_bad_alloc() { abort(); } void __throw_invalid_argument(const char*) { abort(); } void __throw_bad_function_call() { abort(); }
// ordered sets as plain binary trees: same order, no rebalancing
typedef _Rb_tree_node_base RB;
static RB* vs_inc(RB* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } RB* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x; }
static RB* vs_dec(RB* x) { if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { RB* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } RB* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
RB* _Rb_tree_increment(RB* x) throw() { return vs_inc(x); } const RB* _Rb_tree_increment(const RB* x) throw() { return vs_inc(const_cast<RB*>(x)); }
RB* _Rb_tree_decrement(RB* x) throw() { return vs_dec(x); } const RB* _Rb_tree_decrement(const RB* x) throw() { return vs_dec(const_cast<RB*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, RB* x, RB* p, RB& h) throw() { x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_black; h._M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
RB* _Rb_tree_rebalance_for_erase(RB* const z, RB& h) throw() { // remove from a plain tree
  RB* y = z; if (z->_M_left && z->_M_right) { y = z->_M_right; while (y->_M_left) y = y->_M_left; }
  RB* x = y->_M_left ? y->_M_left : y->_M_right; RB* p = y->_M_parent;
  if (h._M_left == z && y == z) h._M_left = z->_M_right ? RB::_S_minimum(z->_M_right) : z->_M_parent; if (h._M_right == z) h._M_right = z->_M_left ? RB::_S_maximum(z->_M_left) : z->_M_parent;
  if (x) x->_M_parent = p; if (h._M_parent == y) h._M_parent = x; else if (p->_M_left == y) p->_M_left = x; else p->_M_right = x;
  if (y != z) { y->_M_left = z->_M_left; y->_M_right = z->_M_right; y->_M_parent = z->_M_parent; if (y->_M_left) y->_M_left->_M_parent = y; if (y->_M_right) y->_M_right->_M_parent = y; if (h._M_parent == z) h._M_parent = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; }
  return z; }
namespace __detail { size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t P[] = { 2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173, 30727, 62233, 126271, 256279, 520241 }; size_t i = 0; while (i < 17 && P[i] < n) i++; _M_next_resize = P[i]; return P[i]; }
  pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize) { size_t w = ne + ni + 1; if (w < 11 && !_M_next_resize) w = 11; if (w >= nb) return { true, _M_next_bkt(w > nb * 2 ? w : nb * 2) }; _M_next_resize = nb; } return { false, 0 }; }
  void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
  void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; } }
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = 14695981039346656037ull ^ seed; for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ull; return h; }
}
