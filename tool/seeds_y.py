import os, shutil
from seed import *
ML, SK, LI, EN, RE, PX = 'uni/python/pymotion.inl', 'uni/python/pyskeleton.inl', 'uni/python/pylist.hpp', 'uni/python/pyenum.hpp', 'datas/python/reflected_enum.hpp', 'datas/pythonex.hpp'


def py(id, edits, demo, needs, breaks):
    mk(id, 'Y01', edits, '#include "py.hpp"\n' + demo, needs, breaks, '-I"$d" /repo/datas/reflector.cpp /repo/datas/master_printer.cpp /repo/datas/matrix44.cpp')
    d = V + '/seeded/' + id
    for f in (V + '/lib/py2/Python.h', V + '/lib/py2/structmember.h', V + '/lib/pymodel.inl', V + '/tool/pyrun/py.hpp'):
        shutil.copy(f, d)


py('py_len', [(EN, 'static PyObject *SubscriptRaw(size_t index) {\n    if (index >= Info::Len()) {', 'static PyObject *SubscriptRaw(size_t index) {\n    if (index > Info::Len()) {')], r'''
int main() { init(); auto e = do_new(types["uniBoneTMType"]); auto r = item(e, 2); return !(r == nullptr && do_error() == PyExc_IndexError); }
''', 'the index right behind the names', 'no IndexError, memory behind the names is read')
py('py_iter', [(LI, '      return self->SubscriptRaw(self->iterPos++);', '      return self->SubscriptRaw(++self->iterPos - 1);'), (LI, '''    self->iterPos = 0;
''', '''    self->iterPos = self->iterPos < Len(self) ? 0 : self->iterPos;
''')], r'''
int main() { init(); B b; L<uni::Bone> l; l.v = {&b, &b}; K k; k.l = &l; auto s = skeleton(k); auto x = do_attr(s, "bones"); int n = 0;
  for (int t = 0; t < 2; t++) { auto i = do_iter(x); while (auto y = do_next(i)) { n++; do_drop(y); } do_error(); do_drop(i); } return n != 4; }
''', 'a list that is iterated again after it was iterated to its end', 'the second iteration gives nothing')
py('py_own', [(SK, '    rtVal->item = {bne, false};', '    rtVal->item = {bne, bne->Parent() != nullptr};')], r'''
int main() { init(); B a, b; auto *c = new B; B d; b.parent = &a; c->parent = &a; d.parent = c; L<uni::Bone> l; l.v = {&d}; K k; k.l = &l; auto s = skeleton(k); auto x = do_attr(s, "bones"); auto i = item(x, 0); auto p = do_attr(i, "parent");
  dead = 0; do_drop(p); return dead != 0; }
''', 'a bone whose parent has a parent', 'the parent is deleted although its skeleton still has it')
py('py_single', [(ML, '''      auto cVal = PyFloat_FromDouble(rtVal);
''', '''      auto cVal = PyFloat_FromDouble(rtVal);
      Py_INCREF(cVal);
''')], r'''
int main() { init(); T t; t.type = T::SingleFloat; L<uni::MotionTrack> l; l.v = {&t}; M m; m.l = &l; auto o = motion(m); auto x = do_attr(o, "tracks"); auto i = item(x, 0); auto a = args({1, 2});
  size_t n = live.size(); auto r = do_call(i, "get_values", a); do_drop(r); return live.size() != n; }
''', 'values of a track of single numbers, released', 'its numbers are never freed')
py('py_times', [(ML, '''  std::vector<float> times(PyList_Size((PyObject *)pTimes));
''', '''  static std::vector<float> times;
  if (times.size() < size_t(PyList_Size((PyObject *)pTimes))) {
    times.resize(PyList_Size((PyObject *)pTimes));
  }
''')], r'''
int main() { init(); T t; L<uni::MotionTrack> l; l.v = {&t}; M m; m.l = &l; auto o = motion(m); auto x = do_attr(o, "tracks"); auto i = item(x, 0); 
  auto r = do_call(i, "get_values", args({1, 2, 3})); r = do_call(i, "get_values", args({4})); return PyList_Size(r) != 1; }
''', 'values requested for fewer times than before', 'there are more values than times')
py('py_eq', [(SK, '                  (i0d->Index() == i1d->Index() && i0d->Name() == i1d->Name());', '                  (i0d->Index() == i1d->Index() || i0d->Name() == i1d->Name());')], r'''
int main() { init(); B a, b, c; a.index = 1; b.index = 2; L<uni::Bone> l; l.v = {&a, &b}; K k; k.l = &l; auto s = skeleton(k); auto x = do_attr(s, "bones"); return do_compare(item(x, 0), item(x, 1)) == 0; }
''', 'bones with the same name and other indices', 'they compare equal')
py('py_enum', [(EN, '''                                          return typ.name == attrNameRef;''', '''                                          return typ.name.compare(
                                                     0, attrNameRef.size(),
                                                     attrNameRef) == 0;''')], r'''
int main() { init(); auto e = do_new(types["uniMotionTrackType"]); auto a = do_attr(e, "Position"), b = do_attr(e, "Rot"); return b != nullptr || num(a) != uni::MotionTrack::Position; }
''', 'the beginning of a name', 'it is found as if it were the name')
py('py_name', [(ML, '''  const auto rName = self->item->Name();
  return PyString_FromStringAndSize(rName.data(), rName.size());''', '''  const auto rName = self->item->Name();
  return PyString_FromString(rName.data());''')], r'''
int main() { init(); M m; m.n = std::string("a\0b", 3); auto o = motion(m); return str(do_attr(o, "name")) != m.n; }
''', 'a name that contains a null character', 'it is cut')
py('py_rate', [(ML, '''  return PyLong_FromLong(self->item->FrameRate());''', '''  return PyLong_FromLong(static_cast<int32>(self->item->FrameRate()));''')], r'''
int main() { init(); M m; m.rate = 0x80000000; return num(do_attr(motion(m), "framerate")) != m.rate; }
''', 'a frame rate of 2^31 and more', 'it is negative')
py('py_list', [(LI, '''    obj->cList = std::move(tp);
    return''', '''    new (&obj->cList) value_type(tp.get(), false);
    return''')], r'''
int main() { init(); auto l = new L<uni::MotionTrack>; M m; m.l = l; m.own = true; auto o = motion(m); auto x = do_attr(o, "tracks"); dead = 0; do_drop(x); return dead != 1; }
''', 'tracks that belong to their list', 'the list is never deleted')
