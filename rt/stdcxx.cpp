// What libstdc++ keeps in its shared library: std::string, list links, hash table sizes. Unused parts are not linked.
#include <string>
#include <list>
#include <unordered_map>
template class std::basic_string<char>;
namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
	if (this == last) return;
	last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
	_List_node_base* t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
	bool ex = x._M_next == &x, ey = y._M_next == &y;
	_List_node_base a = x, b = y;
	if (ey) x._M_next = x._M_prev = &x; else { x._M_next = b._M_next; x._M_prev = b._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; }
	if (ex) y._M_next = y._M_prev = &y; else { y._M_next = a._M_next; y._M_prev = a._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
}
// The sizes chosen cannot be seen through the interface except as order and cost
static size_t buckets(size_t n) { size_t k = 13; while (k < n) k = k * 2 + 3; return k; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t k = buckets(n); _M_next_resize = k; return k; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
	if (elt + ins <= bkt && elt + ins <= 13) { return make_pair(false, (size_t)0); }
	if (elt + ins > bkt) return make_pair(true, buckets((elt + ins) * 2));
	return make_pair(false, (size_t)0);
}
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* q = (const unsigned char*)p; for (size_t i = 0; i < n; i++) seed = seed * 31 + q[i]; return seed; }
}
// std::call_once hands its function over in these
#include <mutex>
namespace std { __thread void* __once_callable; __thread void (*__once_call)(); }
extern "C" void __once_proxy() { std::__once_call(); }
