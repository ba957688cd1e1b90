// Executable models of the libstdc++ functions whose bodies live in the shared library: ordered trees and lists.
// The tree is not balanced: insertion position, iteration order and the header's ends are those of libstdc++,
// colours and rotations are not.  Linked into the verified program only; natively the real library runs.
#ifdef VC_PROVE
#include <list>
#include <map>
#include <set>
namespace std {
typedef _Rb_tree_node_base Node;
static Node* inc(Node* x) {
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
        return x;
    }
    Node* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
static Node* dec(Node* x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;     // the header
    if (x->_M_left) {
        Node* y = x->_M_left;
        while (y->_M_right) y = y->_M_right;
        return y;
    }
    Node* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
Node* _Rb_tree_increment(Node* x) throw() { return inc(x); }
const Node* _Rb_tree_increment(const Node* x) throw() { return inc(const_cast<Node*>(x)); }
Node* _Rb_tree_decrement(Node* x) throw() { return dec(x); }
const Node* _Rb_tree_decrement(const Node* x) throw() { return dec(const_cast<Node*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, Node* x, Node* p, Node& h) throw() {
    x->_M_parent = p;
    x->_M_left = 0;
    x->_M_right = 0;
    x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
static void put(Node* z, Node* x, Node& h) {       // x takes the place of z
    if (h._M_parent == z) h._M_parent = x;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
    else z->_M_parent->_M_right = x;
    if (x) x->_M_parent = z->_M_parent;
}
Node* _Rb_tree_rebalance_for_erase(Node* const z, Node& h) throw() {
    Node* next = h._M_left == z ? inc(z) : 0;
    Node* prev = h._M_right == z ? dec(z) : 0;
    if (!z->_M_left) put(z, z->_M_right, h);
    else if (!z->_M_right) put(z, z->_M_left, h);
    else {
        Node* y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y != z->_M_right) {
            put(y, y->_M_right, h);
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        put(z, y, h);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    if (next) h._M_left = next;
    if (prev) h._M_right = prev;
    return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
    _M_next = p;
    _M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
    _List_node_base* n = _M_next;
    _List_node_base* p = _M_prev;
    p->_M_next = n;
    n->_M_prev = p;
}
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
    if (this == l) return;
    l->_M_prev->_M_next = this;
    f->_M_prev->_M_next = l;
    _M_prev->_M_next = f;
    _List_node_base* t = _M_prev;
    _M_prev = l->_M_prev;
    l->_M_prev = f->_M_prev;
    f->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept {
    _List_node_base* t = this;
    do {
        _List_node_base* n = t->_M_next;
        t->_M_next = t->_M_prev;
        t->_M_prev = n;
        t = n;
    } while (t != this);
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) {
            _List_node_base* a = x._M_next; x._M_next = y._M_next; y._M_next = a;
            a = x._M_prev; x._M_prev = y._M_prev; y._M_prev = a;
            x._M_next->_M_prev = x._M_prev->_M_next = &x;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
        } else {
            y._M_next = x._M_next; y._M_prev = x._M_prev;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
            x._M_next = x._M_prev = &x;
        }
    } else if (y._M_next != &y) {
        x._M_next = y._M_next; x._M_prev = y._M_prev;
        x._M_next->_M_prev = x._M_prev->_M_next = &x;
        y._M_next = y._M_prev = &y;
    }
}
}
}
#endif
