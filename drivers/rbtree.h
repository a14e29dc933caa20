// The out-of-line part of std::map without the rebalancing (which changes no observable behaviour).
#pragma once
#include <map>
namespace std
{
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw()
{
    if (x->_M_right)
    {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
        return x;
    }
    auto *y = x->_M_parent;
    while (x == y->_M_right)
    {
        x = y;
        y = y->_M_parent;
    }
    return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left)
    {
        auto *y = x->_M_left;
        while (y->_M_right) y = y->_M_right;
        return y;
    }
    auto *y = x->_M_parent;
    while (x == y->_M_left)
    {
        x = y;
        y = y->_M_parent;
    }
    return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw()
{
    x->_M_parent = p;
    x->_M_left = x->_M_right = nullptr;
    x->_M_color = _S_black; // the header stays the only red node
    if (left)
    {
        p->_M_left = x;
        if (p == &h)
        {
            h._M_parent = x;
            h._M_right = x;
        }
        else if (p == h._M_left) h._M_left = x;
    }
    else
    {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw()
{
    auto *y = z;
    _Rb_tree_node_base *x;
    if (!y->_M_left) x = y->_M_right;
    else if (!y->_M_right) x = y->_M_left;
    else
    {
        y = y->_M_right;
        while (y->_M_left) y = y->_M_left;
        x = y->_M_right;
    }
    auto *&link = h._M_parent == z ? h._M_parent : z->_M_parent->_M_left == z ? z->_M_parent->_M_left : z->_M_parent->_M_right;
    if (y != z)
    {
        z->_M_left->_M_parent = y;
        y->_M_left = z->_M_left;
        if (y != z->_M_right)
        {
            if (x) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
        }
        link = y;
        y->_M_parent = z->_M_parent;
        return z;
    }
    if (x) x->_M_parent = z->_M_parent;
    link = x;
    if (h._M_left == z)
    {
        h._M_left = z->_M_right ? x : z->_M_parent;
        while (z->_M_right && h._M_left->_M_left) h._M_left = h._M_left->_M_left;
    }
    if (h._M_right == z)
    {
        h._M_right = z->_M_left ? x : z->_M_parent;
        while (z->_M_left && h._M_right->_M_right) h._M_right = h._M_right->_M_right;
    }
    return z;
}
} // namespace std
