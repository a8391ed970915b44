// Models of the parts of the C++ library that live in its shared object: ordered trees (without rebalancing: the order of
// the elements is what callers can see) and the growth policy of hash tables.
#include <map>
#include <unordered_map>
namespace std
{
static _Rb_tree_node_base * leftmost(_Rb_tree_node_base * x)
{
  while (x->_M_left != nullptr) {
    x = x->_M_left;
  }
  return x;
}
static _Rb_tree_node_base * rightmost(_Rb_tree_node_base * x)
{
  while (x->_M_right != nullptr) {
    x = x->_M_right;
  }
  return x;
}
_Rb_tree_node_base * _Rb_tree_increment(_Rb_tree_node_base * x) noexcept
{
  if (x->_M_right != nullptr) {
    return leftmost(x->_M_right);
  }
  _Rb_tree_node_base * y = x->_M_parent;
  while (x == y->_M_right) {
    x = y;
    y = y->_M_parent;
  }
  return x->_M_right != y ? y : x;
}
_Rb_tree_node_base const * _Rb_tree_increment(_Rb_tree_node_base const * x) noexcept
{
  return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x));
}
_Rb_tree_node_base * _Rb_tree_decrement(_Rb_tree_node_base * x) noexcept
{
  // the header is red and its own grandparent
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) {
    return x->_M_right;
  }
  if (x->_M_left != nullptr) {
    return rightmost(x->_M_left);
  }
  _Rb_tree_node_base * y = x->_M_parent;
  while (x == y->_M_left) {
    x = y;
    y = y->_M_parent;
  }
  return y;
}
_Rb_tree_node_base const * _Rb_tree_decrement(_Rb_tree_node_base const * x) noexcept
{
  return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x));
}
void _Rb_tree_insert_and_rebalance(bool const left, _Rb_tree_node_base * x, _Rb_tree_node_base * p, _Rb_tree_node_base & header) noexcept
{
  x->_M_parent = p;
  x->_M_left = nullptr;
  x->_M_right = nullptr;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &header) {
      header._M_parent = x;
      header._M_right = x;
    } else if (p == header._M_left) {
      header._M_left = x;
    }
  } else {
    p->_M_right = x;
    if (p == header._M_right) {
      header._M_right = x;
    }
  }
}
_Rb_tree_node_base * _Rb_tree_rebalance_for_erase(_Rb_tree_node_base * const z, _Rb_tree_node_base & header) noexcept
{
  _Rb_tree_node_base * in = nullptr; // takes z's place
  if (z->_M_left == nullptr) {
    in = z->_M_right;
  } else if (z->_M_right == nullptr) {
    in = z->_M_left;
  } else {
    in = leftmost(z->_M_right);
    if (in != z->_M_right) {
      in->_M_parent->_M_left = in->_M_right;
      if (in->_M_right != nullptr) {
        in->_M_right->_M_parent = in->_M_parent;
      }
      in->_M_right = z->_M_right;
      in->_M_right->_M_parent = in;
    }
    in->_M_left = z->_M_left;
    in->_M_left->_M_parent = in;
  }
  if (header._M_left == z) {
    header._M_left = in == nullptr ? z->_M_parent : leftmost(in);
  }
  if (header._M_right == z) {
    header._M_right = in == nullptr ? z->_M_parent : rightmost(in);
  }
  if (header._M_parent == z) {
    header._M_parent = in;
  } else if (z->_M_parent->_M_left == z) {
    z->_M_parent->_M_left = in;
  } else {
    z->_M_parent->_M_right = in;
  }
  if (in != nullptr) {
    in->_M_parent = z->_M_parent;
  }
  return z;
}
namespace __detail
{
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
  static size_t const primes[] = {13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273};
  for (size_t const p : primes) {
    if (p >= n) {
      _M_next_resize = static_cast<size_t>(static_cast<double>(p) * static_cast<double>(_M_max_load_factor));
      return p;
    }
  }
  _M_next_resize = n | 1;
  return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
  if (elt + ins > bkt || bkt <= 1) {
    return {true, _M_next_bkt(elt + ins > 2 * bkt ? elt + ins : 2 * bkt)};
  }
  return {false, 0};
}
} // namespace __detail
size_t _Hash_bytes(void const * ptr, size_t len, size_t seed)
{
  unsigned char const * p = static_cast<unsigned char const *>(ptr);
  for (size_t i = 0; i < len; ++i) {
    seed = seed * 131 + p[i];
  }
  return seed;
}
} // namespace std
