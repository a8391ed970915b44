// In-memory stand-in for pugixml (encoding only; native runs use the real library). A saved
// document is kept as a tree under its file name; loading it gives an equal tree.
#pragma once
#include <cstddef>
struct VxNode;
struct VxAttr;
namespace pugi
{
enum xml_node_type { node_null, node_document, node_element, node_pcdata };
class xml_attribute
{
public:
  VxAttr * a = nullptr;
  char const * name() const;
  char const * value() const;
  int as_int(int def = 0) const;
  xml_attribute & operator=(char const * v);
  xml_attribute & operator=(int v);
  xml_attribute & operator=(unsigned v);
  xml_attribute & operator=(long v);
  xml_attribute & operator=(unsigned long v);
  explicit operator bool() const { return a != nullptr; }
};
class xml_range;
class xml_node
{
public:
  VxNode * n = nullptr;
  char const * name() const;
  char const * value() const;
  char const * child_value() const;
  char const * child_value(char const * name) const { return child(name).child_value(); }
  bool set_value(char const * v);
  xml_node append_child(char const * name);
  xml_node append_child(xml_node_type t);
  xml_attribute append_attribute(char const * name);
  xml_node child(char const * name) const;
  xml_node first_child() const;
  xml_node next_sibling() const;
  xml_node next_sibling(char const * name) const;
  xml_attribute attribute(char const * name) const;
  xml_range children(char const * name) const;
  bool empty() const { return n == nullptr; }
  explicit operator bool() const { return n != nullptr; }
  bool operator!() const { return n == nullptr; }
  bool operator!=(std::nullptr_t) const { return n != nullptr; }
  bool operator==(std::nullptr_t) const { return n == nullptr; }
};
class xml_named_iterator
{
public:
  xml_node cur;
  char const * name;
  xml_node const & operator*() const { return cur; }
  xml_named_iterator & operator++()
  {
    cur = cur.next_sibling(name);
    return *this;
  }
  bool operator!=(xml_named_iterator const & o) const { return cur.n != o.cur.n; }
};
class xml_range
{
public:
  xml_named_iterator b, e;
  xml_named_iterator begin() const { return b; }
  xml_named_iterator end() const { return e; }
};
inline xml_range xml_node::children(char const * name) const
{
  return {{child(name), name}, {xml_node(), name}};
}
struct xml_parse_result {
  bool ok = false;
  long offset = 0;
  explicit operator bool() const { return ok; }
  bool operator!() const { return !ok; }
  char const * description() const { return ok ? "No error" : "File was not found"; }
};
class xml_document : public xml_node
{
public:
  xml_document();
  bool save_file(char const * path, char const * indent = "\t") const;
  xml_parse_result load_file(char const * path);
  void reset();
};
} // namespace pugi
