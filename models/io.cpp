// In-memory files: see io/*.
#include "H5Cpp.h"
#include "fstream"
#include "pugixml.hpp"
#include <cstring>

static char * dup(char const * s)
{
  size_t const n = strlen(s);
  char * r = static_cast<char *>(malloc(n + 1));
  for (size_t i = 0; i <= n; ++i) {
    r[i] = s[i];
  }
  return r;
}
static char * cat(char const * a, char const * b, char const * c)
{
  size_t const n = strlen(a) + strlen(b) + strlen(c);
  char * r = static_cast<char *>(malloc(n + 1));
  char * p = r;
  for (; *a; ++a) { *p++ = *a; }
  for (; *b; ++b) { *p++ = *b; }
  for (; *c; ++c) { *p++ = *c; }
  *p = 0;
  return r;
}
static char * number(unsigned long v, bool neg)
{
  char b[24];
  int i = 23;
  b[i] = 0;
  do {
    b[--i] = static_cast<char>('0' + v % 10);
    v /= 10;
  } while (v != 0);
  if (neg) {
    b[--i] = '-';
  }
  return dup(b + i);
}

//---------------------------------------------------------------- HDF5
struct VxObj {
  char * path;
  bool group;
  int cls;
  size_t size;
  int rank;
  hsize_t dims[4];
  size_t n;
  void * data;
  VxObj * next;
};
struct VxH5 {
  char * name;
  VxObj * first;
  VxH5 * next;
};
static VxH5 * h5files = nullptr;
static VxObj * find(VxH5 * f, char const * path)
{
  for (VxObj * o = f->first; o != nullptr; o = o->next) {
    if (strcmp(o->path, path) == 0) {
      return o;
    }
  }
  return nullptr;
}
static VxObj * add(VxH5 * f, char * path)
{
  // every parent must exist
  for (char * p = path + 1; *p; ++p) {
    if (*p == '/') {
      *p = 0;
      VxObj * const g = find(f, path);
      *p = '/';
      if (g == nullptr || !g->group) {
        abort();
      }
    }
  }
  if (find(f, path) != nullptr) {
    abort();
  }
  VxObj * o = static_cast<VxObj *>(malloc(sizeof(VxObj)));
  o->path = path;
  o->group = true;
  o->data = nullptr;
  o->next = f->first;
  f->first = o;
  return o;
}
static void copyData(void * to, void const * from, size_t n, int cls, size_t size)
{
  if (cls == 1 && size == 8) {
    for (size_t i = 0; i < n; ++i) {
      static_cast<double *>(to)[i] = static_cast<double const *>(from)[i];
    }
  } else if (cls == 1) {
    for (size_t i = 0; i < n; ++i) {
      static_cast<float *>(to)[i] = static_cast<float const *>(from)[i];
    }
  } else if (size == 4) {
    for (size_t i = 0; i < n; ++i) {
      static_cast<int *>(to)[i] = static_cast<int const *>(from)[i];
    }
  } else if (size == 8) {
    for (size_t i = 0; i < n; ++i) {
      static_cast<long *>(to)[i] = static_cast<long const *>(from)[i];
    }
  } else {
    for (size_t i = 0; i < n * size; ++i) {
      static_cast<char *>(to)[i] = static_cast<char const *>(from)[i];
    }
  }
}
namespace H5
{
DataSpace::DataSpace(int r, hsize_t const * d, hsize_t const *) : rank(r)
{
  for (int i = 0; i < r; ++i) {
    dims[i] = d[i];
  }
}
int DataSpace::getSimpleExtentDims(hsize_t * d, hsize_t *) const
{
  for (int i = 0; i < rank; ++i) {
    d[i] = dims[i];
  }
  return rank;
}
void DataSet::write(void const * buf, DataType const & t, DataSpace const & s) const
{
  if (t.cls != o->cls || t.size != o->size) {
    vx_model_limit();
  }
  size_t n = 1;
  for (int i = 0; i < s.rank; ++i) {
    n *= s.dims[i];
  }
  if (s.rank == 0) {
    n = o->n;
  }
  if (n != o->n) {
    abort();
  }
  copyData(o->data, buf, n, o->cls, o->size);
}
void DataSet::read(void * buf, DataType const & t) const
{
  if (t.cls != o->cls || t.size != o->size) {
    vx_model_limit();
  }
  copyData(buf, o->data, o->n, o->cls, o->size);
}
H5T_class_t DataSet::getTypeClass() const { return static_cast<H5T_class_t>(o->cls); }
IntType DataSet::getIntType() const { return {o->cls, o->size}; }
FloatType DataSet::getFloatType() const { return {o->cls, o->size}; }
DataSpace DataSet::getSpace() const { return {o->rank, o->dims}; }
DataSet Group::createDataSet(char const * name, DataType const & t, DataSpace const & s) const
{
  VxObj * o = add(f, cat(path, "/", name));
  o->group = false;
  o->cls = t.cls;
  o->size = t.size;
  o->rank = s.rank;
  o->n = 1;
  for (int i = 0; i < s.rank; ++i) {
    o->dims[i] = s.dims[i];
    o->n *= s.dims[i];
  }
  o->data = calloc(o->n == 0 ? 1 : o->n, o->size);
  DataSet d;
  d.o = o;
  return d;
}
static char * resolve(char const * path, char const * name)
{
  return name[0] == '/' ? dup(name) : cat(path, "/", name);
}
DataSet Group::openDataSet(char const * name) const
{
  DataSet d;
  d.o = find(f, resolve(path, name));
  if (d.o == nullptr || d.o->group) {
    abort();
  }
  return d;
}
Group Group::createGroup(char const * name) const
{
  Group g;
  g.f = f;
  g.path = resolve(path, name);
  add(f, g.path);
  return g;
}
H5File::H5File(char const * name, unsigned flags)
{
  path = dup("");
  for (f = h5files; f != nullptr; f = f->next) {
    if (strcmp(f->name, name) == 0) {
      break;
    }
  }
  if (flags == H5F_ACC_RDONLY) {
    if (f == nullptr) {
      abort();
    }
    return;
  }
  if (f == nullptr) {
    f = static_cast<VxH5 *>(malloc(sizeof(VxH5)));
    f->name = dup(name);
    f->next = h5files;
    h5files = f;
  }
  f->first = nullptr;
}
} // namespace H5

//---------------------------------------------------------------- XML
struct VxAttr {
  char * name;
  char * value;
  VxAttr * next;
};
struct VxNode {
  int type;
  char * name;
  char * value;
  VxAttr * attrs;
  VxAttr * lastAttr;
  VxNode * first;
  VxNode * last;
  VxNode * next;
};
static VxNode * newNode(int type, char const * name)
{
  VxNode * n = static_cast<VxNode *>(malloc(sizeof(VxNode)));
  n->type = type;
  n->name = dup(name);
  n->value = dup("");
  n->attrs = nullptr;
  n->lastAttr = nullptr;
  n->first = nullptr;
  n->last = nullptr;
  n->next = nullptr;
  return n;
}
static VxNode * link(VxNode * p, VxNode * n)
{
  if (p->first == nullptr) {
    p->first = n;
  } else {
    p->last->next = n;
  }
  p->last = n;
  return n;
}
static VxAttr * addAttr(VxNode * n, char const * name)
{
  VxAttr * a = static_cast<VxAttr *>(malloc(sizeof(VxAttr)));
  a->name = dup(name);
  a->value = dup("");
  a->next = nullptr;
  if (n->attrs == nullptr) {
    n->attrs = a;
  } else {
    n->lastAttr->next = a;
  }
  n->lastAttr = a;
  return a;
}
static VxNode * clone(VxNode const * n)
{
  VxNode * r = newNode(n->type, n->name);
  r->value = dup(n->value);
  for (VxAttr * a = n->attrs; a != nullptr; a = a->next) {
    addAttr(r, a->name)->value = dup(a->value);
  }
  for (VxNode * c = n->first; c != nullptr; c = c->next) {
    // text of white space only is not kept by the parser
    if (c->type == pugi::node_pcdata) {
      char const * p = c->value;
      while (*p == ' ' || (*p >= 9 && *p <= 13)) {
        ++p;
      }
      if (*p == 0) {
        continue;
      }
    }
    link(r, clone(c));
  }
  return r;
}
struct VxDoc {
  char * name;
  VxNode * root;
  VxDoc * next;
};
static VxDoc * docs = nullptr;
namespace pugi
{
static char none[1] = {0};
char const * xml_attribute::name() const { return a == nullptr ? none : a->name; }
char const * xml_attribute::value() const { return a == nullptr ? none : a->value; }
int xml_attribute::as_int(int def) const { return a == nullptr ? def : static_cast<int>(strtol(a->value, nullptr, 10)); }
xml_attribute & xml_attribute::operator=(char const * v)
{
  if (a != nullptr) {
    a->value = dup(v);
  }
  return *this;
}
xml_attribute & xml_attribute::operator=(long v)
{
  if (a != nullptr) {
    a->value = v < 0 ? number(-static_cast<unsigned long>(v), true) : number(static_cast<unsigned long>(v), false);
  }
  return *this;
}
xml_attribute & xml_attribute::operator=(int v) { return *this = static_cast<long>(v); }
xml_attribute & xml_attribute::operator=(unsigned long v)
{
  if (a != nullptr) {
    a->value = number(v, false);
  }
  return *this;
}
xml_attribute & xml_attribute::operator=(unsigned v) { return *this = static_cast<unsigned long>(v); }
char const * xml_node::name() const { return n == nullptr ? none : n->name; }
char const * xml_node::value() const { return n == nullptr ? none : n->value; }
char const * xml_node::child_value() const
{
  if (n != nullptr) {
    for (VxNode * c = n->first; c != nullptr; c = c->next) {
      if (c->type == node_pcdata) {
        return c->value;
      }
    }
  }
  return none;
}
bool xml_node::set_value(char const * v)
{
  if (n == nullptr || n->type != node_pcdata) {
    return false;
  }
  n->value = dup(v);
  return true;
}
xml_node xml_node::append_child(char const * name)
{
  xml_node r;
  if (n != nullptr) {
    r.n = link(n, newNode(node_element, name));
  }
  return r;
}
xml_node xml_node::append_child(xml_node_type t)
{
  xml_node r;
  if (n != nullptr) {
    r.n = link(n, newNode(t, ""));
  }
  return r;
}
xml_attribute xml_node::append_attribute(char const * name)
{
  xml_attribute r;
  if (n != nullptr) {
    r.a = addAttr(n, name);
  }
  return r;
}
xml_node xml_node::child(char const * name) const
{
  xml_node r;
  if (n != nullptr) {
    for (VxNode * c = n->first; c != nullptr; c = c->next) {
      if (strcmp(c->name, name) == 0) {
        r.n = c;
        break;
      }
    }
  }
  return r;
}
xml_node xml_node::first_child() const
{
  xml_node r;
  r.n = n == nullptr ? nullptr : n->first;
  return r;
}
xml_node xml_node::next_sibling() const
{
  xml_node r;
  r.n = n == nullptr ? nullptr : n->next;
  return r;
}
xml_node xml_node::next_sibling(char const * name) const
{
  xml_node r;
  if (n != nullptr) {
    for (VxNode * c = n->next; c != nullptr; c = c->next) {
      if (strcmp(c->name, name) == 0) {
        r.n = c;
        break;
      }
    }
  }
  return r;
}
xml_attribute xml_node::attribute(char const * name) const
{
  xml_attribute r;
  if (n != nullptr) {
    for (VxAttr * a = n->attrs; a != nullptr; a = a->next) {
      if (strcmp(a->name, name) == 0) {
        r.a = a;
        break;
      }
    }
  }
  return r;
}
xml_document::xml_document() { n = newNode(node_document, ""); }
bool xml_document::save_file(char const * path, char const *) const
{
  VxDoc * d = docs;
  while (d != nullptr && strcmp(d->name, path) != 0) {
    d = d->next;
  }
  if (d == nullptr) {
    d = static_cast<VxDoc *>(malloc(sizeof(VxDoc)));
    d->name = dup(path);
    d->next = docs;
    docs = d;
  }
  d->root = clone(n);
  return true;
}
xml_parse_result xml_document::load_file(char const * path)
{
  xml_parse_result r;
  n = newNode(node_document, "");
  for (VxDoc * d = docs; d != nullptr; d = d->next) {
    if (strcmp(d->name, path) == 0) {
      n = clone(d->root);
      r.ok = true;
    }
  }
  return r;
}
void xml_document::reset() { n = newNode(node_document, ""); }
} // namespace pugi

//---------------------------------------------------------------- text
struct VxText {
  char * name;
  char * buf;
  long n;
  long cap;
  VxText * next;
};
static VxText * texts = nullptr;
extern "C" {
int vx_token_r(double v);
int vx_token_i(long v);
int vx_known(long v);
}
namespace std
{
static VxText * findText(char const * path)
{
  VxText * t = texts;
  while (t != nullptr && strcmp(t->name, path) != 0) {
    t = t->next;
  }
  return t;
}
VxOfstream::VxOfstream(char const * path)
{
  t = findText(path);
  if (t == nullptr) {
    t = static_cast<VxText *>(malloc(sizeof(VxText)));
    t->name = dup(path);
    t->next = texts;
    t->cap = 4096;
    t->buf = static_cast<char *>(malloc(4096));
    texts = t;
  }
  t->n = 0;
}
VxOfstream & VxOfstream::write(char const * s, long n)
{
  if (t->n + n > t->cap) {
    long const cap = 2 * (t->n + n);
    char * b = static_cast<char *>(malloc(cap));
    for (long i = 0; i < t->n; ++i) {
      b[i] = t->buf[i];
    }
    t->buf = b;
    t->cap = cap;
  }
  for (long i = 0; i < n; ++i) {
    t->buf[t->n + i] = s[i];
  }
  t->n += n;
  return *this;
}
VxOfstream & VxOfstream::operator<<(char const * s) { return write(s, static_cast<long>(strlen(s))); }
VxOfstream & VxOfstream::operator<<(char c) { return write(&c, 1); }
VxOfstream & VxOfstream::operator<<(long v)
{
  if (vx_known(v) != 0) {
    char b[32];
    snprintf(b, sizeof(b), "%ld", v);
    return *this << static_cast<char const *>(b);
  }
  int const k = vx_token_i(v);
  char const c[3] = {2, static_cast<char>('A' + k / 26), static_cast<char>('a' + k % 26)};
  return write(c, 3);
}
VxOfstream & VxOfstream::operator<<(double v)
{
  int const k = vx_token_r(v);
  char const c[3] = {1, static_cast<char>('A' + k / 26), static_cast<char>('a' + k % 26)};
  return write(c, 3);
}
VxIfstream::VxIfstream(char const * path)
{
  t = findText(path);
  failb = t == nullptr;
}
VxIfstream & VxIfstream::getline(char * s, long n, char delim)
{
  if (!good()) {
    failb = true;
    s[0] = 0;
    return *this;
  }
  long k = 0;
  bool extracted = false;
  while (true) {
    if (pos >= t->n) {
      eofb = true;
      break;
    }
    if (t->buf[pos] == delim) {
      ++pos;
      extracted = true;
      break;
    }
    if (k + 1 >= n) {
      failb = true;
      break;
    }
    s[k++] = t->buf[pos++];
    extracted = true;
  }
  s[k] = 0;
  if (!extracted) {
    failb = true;
  }
  return *this;
}
VxIfstream & VxIfstream::ignore(long n, int delim)
{
  if (!good()) {
    failb = true;
    return *this;
  }
  for (long k = 0; k < n || n == numeric_limits<streamsize>::max(); ++k) {
    if (pos >= t->n) {
      eofb = true;
      break;
    }
    if (t->buf[pos++] == delim) {
      break;
    }
  }
  return *this;
}
int VxIfstream::peek()
{
  if (!good()) {
    failb = true;
    return EOF;
  }
  if (pos >= t->n) {
    eofb = true;
    return EOF;
  }
  return static_cast<unsigned char>(t->buf[pos]);
}
int VxIfstream::get()
{
  int const c = peek();
  if (c == EOF) {
    failb = true;
  } else {
    ++pos;
  }
  return c;
}
static bool skip(VxIfstream & f)
{
  while (f.peek() != EOF && (f.t->buf[f.pos] == ' ' || (f.t->buf[f.pos] >= 9 && f.t->buf[f.pos] <= 13))) {
    ++f.pos;
  }
  if (!f.good()) {
    f.failb = true;
  }
  return f.good();
}
static void word(VxIfstream & f, char * b)
{
  int k = 0;
  if (f.t->buf[f.pos] == 1 || f.t->buf[f.pos] == 2) {
    b[k++] = f.t->buf[f.pos++];
  }
  while (f.pos < f.t->n && f.t->buf[f.pos] > 32 && k < 63) {
    b[k++] = f.t->buf[f.pos++];
  }
  b[k] = 0;
}
VxIfstream & VxIfstream::operator>>(double & v)
{
  if (skip(*this)) {
    char b[64];
    word(*this, b);
    v = strtod(b, nullptr);
  }
  return *this;
}
VxIfstream & VxIfstream::operator>>(int & v)
{
  if (skip(*this)) {
    char b[64];
    word(*this, b);
    v = static_cast<int>(strtol(b, nullptr, 10));
  }
  return *this;
}
VxIfstream & VxIfstream::operator>>(char & c)
{
  if (skip(*this)) {
    c = t->buf[pos++];
  }
  return *this;
}
} // namespace std
