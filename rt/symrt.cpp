// Bodies, for the symbolic run only, of the out-of-line libstdc++ helpers that
// std::map needs.  Same ordering semantics as libstdc++; no rebalancing (the
// tree shape is unobservable through std::map's interface).
#include <map>
#include <string>
#include <vector>
template class std::basic_string<char>;
namespace std {
typedef _Rb_tree_node_base N;
static N* nx(N* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } N* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
static N* pv(N* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { N* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } N* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
N* _Rb_tree_increment(N* x) throw() { return nx(x); }
const N* _Rb_tree_increment(const N* x) throw() { return nx(const_cast<N*>(x)); }
N* _Rb_tree_decrement(N* x) throw() { return pv(x); }
const N* _Rb_tree_decrement(const N* x) throw() { return pv(const_cast<N*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
N* _Rb_tree_rebalance_for_erase(N* const z, N& h) throw() {
  // replace z by its successor when it has two children
  N* p = z->_M_parent; bool isroot = (h._M_parent == z); N* c;
  if (!z->_M_left) c = z->_M_right; else if (!z->_M_right) c = z->_M_left;
  else {
    N* y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y != z->_M_right) { N* yp = y->_M_parent; yp->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = yp; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    y->_M_left = z->_M_left; z->_M_left->_M_parent = y; c = y;
  }
  if (isroot) h._M_parent = c; else if (p->_M_left == z) p->_M_left = c; else p->_M_right = c;
  if (c) c->_M_parent = p;
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
  else { N* m = h._M_parent; while (m->_M_left) m = m->_M_left; h._M_left = m; m = h._M_parent; while (m->_M_right) m = m->_M_right; h._M_right = m; }
  return z;
}
}  // namespace std

// std::list, std::unordered_map and a few C functions the code does not use today but may
#include <cstdio>
#include <cstring>
#include <list>
#include <unordered_map>
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this == l) return;
  l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
// bucket counts need not be primes here: any count gives the same map
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { std::size_t b = n < 5 ? 5 : n | 1; _M_next_resize = b; return b; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const {
  if (ne + ni > nb || nb == 1) { std::size_t w = (ne + ni) * 2; return {true, _M_next_bkt(w > 7 ? w : 7)}; }
  return {false, 0};
}
} }
extern "C" {
__attribute__((weak)) char* vk_rt_strchr(const char*, int) __asm__("strchr");
char* vk_rt_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return const_cast<char*>(s); if (!*s) return nullptr; } }
__attribute__((weak)) char* vk_rt_strrchr(const char*, int) __asm__("strrchr");
char* vk_rt_strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return const_cast<char*>(r); } }
__attribute__((weak)) int strncmp(const char* a, const char* b, std::size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } return 0; }
__attribute__((weak)) char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
__attribute__((weak)) int fflush(FILE*) { return 0; }
}
