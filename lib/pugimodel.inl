// Stand-in for the functions of pugixml that the analysed code calls: a plain tree whose texts keep their bytes.
#include "pugixml.hpp"
namespace pugi {
struct xml_attribute_struct { const char *name, *value; xml_attribute_struct *next, *prev; };
struct xml_node_struct { int type; const char *name, *value; int parsed; xml_node_struct *parent, *first, *last, *next, *prev; xml_attribute_struct *afirst, *alast; };
namespace model {
inline const char *copy(const char *s) { size_t n = 0; while (s[n]) n++; char *r = new char[n + 1]; for (size_t k = 0; k < n; k++) r[k] = s[k]; r[n] = 0; return r; }
inline const char *copy(const char *s, size_t n) { char *r = new char[n + 1]; for (size_t k = 0; k < n; k++) r[k] = s[k]; r[n] = 0; return r; }
inline bool same(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return *a == *b; }
inline xml_node_struct *node(int type) { auto r = new xml_node_struct; r->type = type; r->name = r->value = ""; r->parsed = 0; r->parent = r->first = r->last = r->next = r->prev = nullptr; r->afirst = r->alast = nullptr; return r; }
inline bool can(xml_node_struct *p, int type) { return p && (p->type == node_document || p->type == node_element) && type > node_document && (p->type == node_document || type < node_declaration); }
inline xml_node_struct *add(xml_node_struct *p, int type) {
  if (!can(p, type)) return nullptr;
  auto r = node(type); r->parent = p; r->prev = p->last;
  if (p->last) p->last->next = r; else p->first = r;
  p->last = r; return r;
}
inline xml_node_struct *front(xml_node_struct *p, int type) {
  if (!can(p, type)) return nullptr;
  auto r = node(type); r->parent = p; r->next = p->first;
  if (p->first) p->first->prev = r; else p->last = r;
  p->first = r; return r;
}
inline void drop(xml_node_struct *n) {
  auto p = n->parent;
  (n->prev ? n->prev->next : p->first) = n->next;
  (n->next ? n->next->prev : p->last) = n->prev;
}
inline bool istext(int t) { return t == node_pcdata || t == node_cdata; }
inline xml_node_struct *data(xml_node_struct *n) {
  if (!n || istext(n->type)) return n;
  for (auto c = n->first; c; c = c->next) if (istext(c->type)) return c;
  return nullptr;
}
inline bool truth(const char *v, bool def) { if (!v || !*v) return *v ? def : def; char c = *v; return c == '1' || c == 't' || c == 'T' || c == 'y' || c == 'Y'; }
}
using namespace model;

xml_attribute::xml_attribute() : _attr(nullptr) {}
xml_attribute::xml_attribute(xml_attribute_struct *a) : _attr(a) {}
xml_attribute::operator xml_attribute::unspecified_bool_type() const { return _attr ? reinterpret_cast<unspecified_bool_type>(1) : nullptr; }
bool xml_attribute::operator!() const { return !_attr; }
bool xml_attribute::operator==(const xml_attribute &r) const { return _attr == r._attr; }
bool xml_attribute::operator!=(const xml_attribute &r) const { return _attr != r._attr; }
bool xml_attribute::empty() const { return !_attr; }
const char_t *xml_attribute::name() const { return _attr ? _attr->name : ""; }
const char_t *xml_attribute::value() const { return _attr ? _attr->value : ""; }
const char_t *xml_attribute::as_string(const char_t *d) const { return _attr ? _attr->value : d; }
bool xml_attribute::as_bool(bool d) const { return _attr && *_attr->value ? truth(_attr->value, d) : d; }
bool xml_attribute::set_name(const char_t *s) { if (!_attr) return false; _attr->name = copy(s); return true; }
bool xml_attribute::set_value(const char_t *s) { if (!_attr) return false; _attr->value = copy(s); return true; }
bool xml_attribute::set_value(const char_t *s, size_t n) { if (!_attr) return false; _attr->value = copy(s, n); return true; }
xml_attribute &xml_attribute::operator=(const char_t *s) { set_value(s); return *this; }
xml_attribute xml_attribute::next_attribute() const { return xml_attribute(_attr ? _attr->next : nullptr); }
xml_attribute xml_attribute::previous_attribute() const { return xml_attribute(_attr ? _attr->prev : nullptr); }
xml_attribute_struct *xml_attribute::internal_object() const { return _attr; }

xml_node::xml_node() : _root(nullptr) {}
xml_node::xml_node(xml_node_struct *p) : _root(p) {}
xml_node::operator xml_node::unspecified_bool_type() const { return _root ? reinterpret_cast<unspecified_bool_type>(1) : nullptr; }
bool xml_node::operator!() const { return !_root; }
bool xml_node::operator==(const xml_node &r) const { return _root == r._root; }
bool xml_node::operator!=(const xml_node &r) const { return _root != r._root; }
bool xml_node::empty() const { return !_root; }
xml_node_type xml_node::type() const { return _root ? static_cast<xml_node_type>(_root->type) : node_null; }
const char_t *xml_node::name() const { return _root ? _root->name : ""; }
const char_t *xml_node::value() const { return _root ? _root->value : ""; }
xml_attribute xml_node::first_attribute() const { return xml_attribute(_root ? _root->afirst : nullptr); }
xml_attribute xml_node::last_attribute() const { return xml_attribute(_root ? _root->alast : nullptr); }
xml_node xml_node::first_child() const { return xml_node(_root ? _root->first : nullptr); }
xml_node xml_node::last_child() const { return xml_node(_root ? _root->last : nullptr); }
xml_node xml_node::next_sibling() const { return xml_node(_root ? _root->next : nullptr); }
xml_node xml_node::previous_sibling() const { return xml_node(_root ? _root->prev : nullptr); }
xml_node xml_node::parent() const { return xml_node(_root ? _root->parent : nullptr); }
xml_node xml_node::root() const { auto r = _root; while (r && r->parent) r = r->parent; return xml_node(r); }
xml_text xml_node::text() const { return xml_text(_root); }
xml_node xml_node::child(const char_t *n) const { for (auto c = _root ? _root->first : nullptr; c; c = c->next) if (same(c->name, n)) return xml_node(c); return xml_node(); }
xml_attribute xml_node::attribute(const char_t *n) const { for (auto c = _root ? _root->afirst : nullptr; c; c = c->next) if (same(c->name, n)) return xml_attribute(c); return xml_attribute(); }
xml_node xml_node::next_sibling(const char_t *n) const { for (auto c = _root ? _root->next : nullptr; c; c = c->next) if (same(c->name, n)) return xml_node(c); return xml_node(); }
xml_node xml_node::previous_sibling(const char_t *n) const { for (auto c = _root ? _root->prev : nullptr; c; c = c->prev) if (same(c->name, n)) return xml_node(c); return xml_node(); }
const char_t *xml_node::child_value() const { for (auto c = _root ? _root->first : nullptr; c; c = c->next) if (istext(c->type)) return c->value; return ""; }
const char_t *xml_node::child_value(const char_t *n) const { return child(n).child_value(); }
bool xml_node::set_name(const char_t *s) { if (!_root || _root->type != node_element) return false; _root->name = copy(s); return true; }
bool xml_node::set_value(const char_t *s) { if (!_root || !istext(_root->type)) return false; _root->value = copy(s); _root->parsed = 0; return true; }
bool xml_node::set_value(const char_t *s, size_t n) { if (!_root || !istext(_root->type)) return false; _root->value = copy(s, n); _root->parsed = 0; return true; }
xml_attribute xml_node::append_attribute(const char_t *s) {
  if (!_root || _root->type != node_element) return xml_attribute();
  auto r = new xml_attribute_struct; r->name = copy(s); r->value = ""; r->next = nullptr; r->prev = _root->alast;
  if (_root->alast) _root->alast->next = r; else _root->afirst = r;
  _root->alast = r; return xml_attribute(r);
}
xml_attribute xml_node::prepend_attribute(const char_t *s) {
  if (!_root || _root->type != node_element) return xml_attribute();
  auto r = new xml_attribute_struct; r->name = copy(s); r->value = ""; r->prev = nullptr; r->next = _root->afirst;
  if (_root->afirst) _root->afirst->prev = r; else _root->alast = r;
  _root->afirst = r; return xml_attribute(r);
}
xml_node xml_node::append_child(xml_node_type t) { return xml_node(add(_root, t)); }
xml_node xml_node::append_child(const char_t *s) { auto r = add(_root, node_element); if (r) r->name = copy(s); return xml_node(r); }
xml_node xml_node::prepend_child(xml_node_type t) { return xml_node(front(_root, t)); }
xml_node xml_node::prepend_child(const char_t *s) { auto r = front(_root, node_element); if (r) r->name = copy(s); return xml_node(r); }
bool xml_node::remove_child(const xml_node &n) { if (!_root || !n._root || n._root->parent != _root) return false; drop(n._root); return true; }
bool xml_node::remove_child(const char_t *n) { return remove_child(child(n)); }
bool xml_node::remove_children() { if (!_root) return false; _root->first = _root->last = nullptr; return true; }
bool xml_node::remove_attributes() { if (!_root) return false; _root->afirst = _root->alast = nullptr; return true; }
xml_parse_result::xml_parse_result() : status(status_internal_error), offset(0), encoding(encoding_auto) {}
xml_parse_result::operator bool() const { return status == status_ok; }
// text is kept, but marked: it went through the parser
xml_parse_result xml_node::append_buffer(const void *b, size_t n, unsigned int, xml_encoding) {
  xml_parse_result r;
  if (!_root || (_root->type != node_element && _root->type != node_document)) { r.status = status_append_invalid_root; return r; }
  r.status = status_ok;
  if (n) { auto c = add(_root, node_pcdata); c->value = copy(static_cast<const char *>(b), n); c->parsed = 1; }
  return r;
}
xml_node::iterator xml_node::begin() const { return iterator(_root ? _root->first : nullptr, _root); }
xml_node::iterator xml_node::end() const { return iterator(nullptr, _root); }
xml_node::attribute_iterator xml_node::attributes_begin() const { return attribute_iterator(_root ? _root->afirst : nullptr, _root); }
xml_node::attribute_iterator xml_node::attributes_end() const { return attribute_iterator(nullptr, _root); }
xml_object_range<xml_node_iterator> xml_node::children() const { return xml_object_range<xml_node_iterator>(begin(), end()); }
xml_object_range<xml_attribute_iterator> xml_node::attributes() const { return xml_object_range<xml_attribute_iterator>(attributes_begin(), attributes_end()); }
xml_object_range<xml_named_node_iterator> xml_node::children(const char_t *n) const { return xml_object_range<xml_named_node_iterator>(xml_named_node_iterator(child(n)._root, _root, n), xml_named_node_iterator(nullptr, _root, n)); }
xml_node_struct *xml_node::internal_object() const { return _root; }

xml_text::xml_text(xml_node_struct *r) : _root(r) {}
xml_text::xml_text() : _root(nullptr) {}
xml_node_struct *xml_text::_data() const { return model::data(_root); }
xml_node_struct *xml_text::_data_new() { auto d = _data(); return d ? d : add(_root, node_pcdata); }
xml_text::operator xml_text::unspecified_bool_type() const { return _data() ? reinterpret_cast<unspecified_bool_type>(1) : nullptr; }
bool xml_text::operator!() const { return !_data(); }
bool xml_text::empty() const { return !_data(); }
const char_t *xml_text::get() const { auto d = _data(); return d ? d->value : ""; }
const char_t *xml_text::as_string(const char_t *def) const { auto d = _data(); return d ? d->value : def; }
bool xml_text::as_bool(bool def) const { auto d = _data(); return d && *d->value ? truth(d->value, def) : def; }
bool xml_text::set(const char_t *s) { return xml_node(_data_new()).set_value(s); }
bool xml_text::set(const char_t *s, size_t n) { return xml_node(_data_new()).set_value(s, n); }
xml_text &xml_text::operator=(const char_t *s) { set(s); return *this; }
xml_node xml_text::data() const { return xml_node(_data()); }

xml_node_iterator::xml_node_iterator() {}
xml_node_iterator::xml_node_iterator(const xml_node &n) : _wrap(n), _parent(n.parent()) {}
xml_node_iterator::xml_node_iterator(xml_node_struct *r, xml_node_struct *p) : _wrap(r), _parent(p) {}
bool xml_node_iterator::operator==(const xml_node_iterator &r) const { return _wrap._root == r._wrap._root && _parent._root == r._parent._root; }
bool xml_node_iterator::operator!=(const xml_node_iterator &r) const { return !(*this == r); }
xml_node &xml_node_iterator::operator*() const { return _wrap; }
xml_node *xml_node_iterator::operator->() const { return &_wrap; }
xml_node_iterator &xml_node_iterator::operator++() { _wrap._root = _wrap._root->next; return *this; }
xml_node_iterator xml_node_iterator::operator++(int) { auto t = *this; ++*this; return t; }
xml_node_iterator &xml_node_iterator::operator--() { _wrap = _wrap._root ? _wrap.previous_sibling() : _parent.last_child(); return *this; }
xml_node_iterator xml_node_iterator::operator--(int) { auto t = *this; --*this; return t; }
xml_attribute_iterator::xml_attribute_iterator() {}
xml_attribute_iterator::xml_attribute_iterator(const xml_attribute &a, const xml_node &p) : _wrap(a), _parent(p) {}
xml_attribute_iterator::xml_attribute_iterator(xml_attribute_struct *r, xml_node_struct *p) : _wrap(r), _parent(p) {}
bool xml_attribute_iterator::operator==(const xml_attribute_iterator &r) const { return _wrap._attr == r._wrap._attr && _parent._root == r._parent._root; }
bool xml_attribute_iterator::operator!=(const xml_attribute_iterator &r) const { return !(*this == r); }
xml_attribute &xml_attribute_iterator::operator*() const { return _wrap; }
xml_attribute *xml_attribute_iterator::operator->() const { return &_wrap; }
xml_attribute_iterator &xml_attribute_iterator::operator++() { _wrap._attr = _wrap._attr->next; return *this; }
xml_attribute_iterator xml_attribute_iterator::operator++(int) { auto t = *this; ++*this; return t; }
xml_attribute_iterator &xml_attribute_iterator::operator--() { _wrap = _wrap._attr ? _wrap.previous_attribute() : _parent.last_attribute(); return *this; }
xml_attribute_iterator xml_attribute_iterator::operator--(int) { auto t = *this; --*this; return t; }
xml_named_node_iterator::xml_named_node_iterator() : _name(nullptr) {}
xml_named_node_iterator::xml_named_node_iterator(xml_node_struct *r, xml_node_struct *p, const char_t *n) : _wrap(r), _parent(p), _name(n) {}
bool xml_named_node_iterator::operator==(const xml_named_node_iterator &r) const { return _wrap._root == r._wrap._root && _parent._root == r._parent._root; }
bool xml_named_node_iterator::operator!=(const xml_named_node_iterator &r) const { return !(*this == r); }
xml_node &xml_named_node_iterator::operator*() const { return _wrap; }
xml_node *xml_named_node_iterator::operator->() const { return &_wrap; }
xml_named_node_iterator &xml_named_node_iterator::operator++() { _wrap = _wrap.next_sibling(_name); return *this; }
}
