// std::map's out-of-line tree functions (libstdc++ keeps them in the shared library).
// Balance is not observable through the map interface except as complexity, so insertion does not rebalance.
#include <map>
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
	if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
	_Rb_tree_node_base* y = x->_M_parent;
	while (x == y->_M_right) { x = y; y = y->_M_parent; }
	if (x->_M_right != y) x = y;
	return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
	if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;	// header
	if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
	_Rb_tree_node_base* y = x->_M_parent;
	while (x == y->_M_left) { x = y; y = y->_M_parent; }
	return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
	x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
	h._M_color = _S_red;
	if (left) {
		p->_M_left = x;
		if (p == &h) { h._M_parent = x; h._M_right = x; }
		else if (p == h._M_left) h._M_left = x;
	} else {
		p->_M_right = x;
		if (p == h._M_right) h._M_right = x;
	}
}
static void replace(_Rb_tree_node_base* z, _Rb_tree_node_base* y, _Rb_tree_node_base& h) {
	if (h._M_parent == z) h._M_parent = y;
	else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
	else z->_M_parent->_M_right = y;
	if (y) y->_M_parent = z->_M_parent;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
	_Rb_tree_node_base *lm = h._M_left == z ? _Rb_tree_increment(z) : h._M_left;
	_Rb_tree_node_base *rm = h._M_right == z ? _Rb_tree_decrement(z) : h._M_right;
	if (!z->_M_left) replace(z, z->_M_right, h);
	else if (!z->_M_right) replace(z, z->_M_left, h);
	else {
		_Rb_tree_node_base* y = z->_M_right;
		while (y->_M_left) y = y->_M_left;
		if (y->_M_parent != z) { replace(y, y->_M_right, h); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
		replace(z, y, h);
		y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
	}
	h._M_left = lm; h._M_right = rm;
	if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
	return z;
}
}
