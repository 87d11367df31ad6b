// The out-of-line parts of libstdc++'s containers again, so that they are compiled with access instrumentation:
// the shared library's copies would hide the accesses to list links and tree nodes from the simulator.
#include <list>
#include <map>
namespace std {
namespace __detail {
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
    bool xe = x._M_next == &x, ye = y._M_next == &y;
    _List_node_base *xn = x._M_next, *xp = x._M_prev, *yn = y._M_next, *yp = y._M_prev;
    if (!ye) { x._M_next = yn; x._M_prev = yp; yn->_M_prev = &x; yp->_M_next = &x; } else { x._M_next = x._M_prev = &x; }
    if (!xe) { y._M_next = xn; y._M_prev = xp; xn->_M_prev = &y; xp->_M_next = &y; } else { y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
    if (this == last) return;
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    _List_node_base *const tmp = this->_M_prev;
    this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
}
void _List_node_base::_M_reverse() noexcept {
    _List_node_base *t = this;
    do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
void _List_node_base::_M_hook(_List_node_base *const pos) noexcept { this->_M_next = pos; this->_M_prev = pos->_M_prev; pos->_M_prev->_M_next = this; pos->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *const n = this->_M_next, *const p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
}
}
