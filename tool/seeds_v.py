from seed import mk
H = '#include "datas/vectors.hpp"\n#include "datas/vectors_simd.hpp"\n#include <cmath>\n'
V = 'datas/vectors.hpp'
S = 'datas/vectors_simd.hpp'
M = 'datas/matrix44.cpp'
mk('v3_cross_z', 'V01', [(V, 'Y * input.Z - Z * input.Y, Z * input.X - X * input.Z,\n            X * input.Y - Y * input.X}', 'Y * input.Z - Z * input.Y, Z * input.X - X * input.Z,\n            X * input.Y - X * input.X}')],
   H + 'int main() { Vector a(1, 2, 3), b(5, 7, 11); return std::fabs(a.Cross(b).Z + 3.f) > 0.01f; }',
   'vectors whose x and y differ', 'the z component of a cross product')
mk('v4_len_w', 'V01', [(V, 'sqrt(pow(X, 2) + pow(Y, 2) + pow(Z, 2) + pow(W, 2))', 'sqrt(pow(X, 2) + pow(Y, 2) + pow(Z, 2) + pow(W, 3))')],
   H + 'int main() { V4ScalarType<float> a(0, 0, 0, -4.f); return !(std::fabs(a.Length() - 4.f) < 0.01f); }',
   'a w other than 0 and 1', 'length of 4 component vectors')
mk('v2_sar', 'V01', [(V, 'return {X >> input.X, Y >> input.Y};', 'return {X >> input.X, Y >> input.X};')],
   H + 'int main() { t_Vector2<int32> a(256, 256), s(1, 4); auto r = a >> s; return r.X != 128 || r.Y != 16; }',
   'per-component shifts that differ', 'the second component is shifted by the first amount')
mk('simd_cross_lane', 'V02', [(S, 'vector(_mm_shuffle_ps(_data, _data, _MM_SHUFFLE(3, 1, 0, 2)));\n    const auto temp3', 'vector(_mm_shuffle_ps(_data, _data, _MM_SHUFFLE(3, 1, 1, 2)));\n    const auto temp3')],
   H + 'int main() { Vector4A16 a(1, 2, 3, 0), b(5, 7, 12, 0); auto r = a.Cross(b); return std::fabs(r.Y - 3.f) > 0.01f; }',
   'x and y of the first operand differ', 'y component of the SIMD cross product')
mk('simd_int_ne', 'V02', [(S, 'const __m128 result = reinterpret_cast<const __m128 &>(rsInt);\n    return _mm_movemask_ps(result) == 0xF;', 'const __m128 result = reinterpret_cast<const __m128 &>(rsInt);\n    return (_mm_movemask_ps(result) & 7) == 7;')],
   H + 'int main() { IVector4A16 a(1, 2, 3, 4), b(1, 2, 3, 5); return a == b; }',
   'vectors that only differ in W', 'equality of SIMD integer vectors')

HM = '#include "datas/matrix44.hpp"\n#include <cmath>\nstatic bool eq(float a, float b) { return std::fabs(a - b) < 1e-4f; }\n'

mk('mtx_toquat_z', 'M01', [(M, 'const bool traceType1 = traceType0 ? r1().X > r2().Y : r1().X < -r2().Y;', 'const bool traceType1 = traceType0 ? r1().X > r2().Y : r1().X < r2().Y;')],
   HM + 'int main() { Vector4A16 q(0.0871557f, 0.0f, 0.9961947f, 0.0f); Vector4A16 b = esMatrix44(q).ToQuat(); float s = b.Z < 0 ? -1.f : 1.f; bool ok = eq(b.X * s, q.X) && eq(b.Z * s, q.Z) && eq(b.W, 0);\n'
   'Vector4A16 q2(0.3f, 0.1f, 0.2f, 0.0f); q2.QComputeElement(); Vector4A16 c = esMatrix44(q2).ToQuat(); s = c.W < 0 ? -1.f : 1.f; ok = ok && eq(c.X * s, q2.X) && eq(c.W * s, q2.W);\n'
   'Vector4A16 q3(0.f, 0.f, 0.f, 1.f); Vector4A16 d = esMatrix44(q3).ToQuat(); ok = ok && eq(std::fabs(d.W), 1.f);\nVector4A16 q4(0.f, 0.1f, 0.f, 0.f); q4.QComputeElement(); Vector4A16 e4 = esMatrix44(q4).ToQuat(); ok = ok && eq(e4.Y, q4.Y);\n'
   'Vector4A16 q5(0.05f, 0.f, 0.998749f, 0.f); Vector4A16 f = esMatrix44(q5).ToQuat(); ok = ok && f.Z == f.Z && eq(std::fabs(f.Z), q5.Z);\nVector4A16 q6(0.2f, 0.0f, 0.01f, 0.0f); q6.QComputeElement(); Vector4A16 g = esMatrix44(q6).ToQuat(); ok = ok && eq(std::fabs(g.X), q6.X); \n'
   'Vector4A16 q7(0.f, 0.f, 1.f, 0.f); Vector4A16 h = esMatrix44(q7).ToQuat(); ok = ok && eq(std::fabs(h.Z), 1.f); return !ok; }',
   'a rotation near half a turn about z', 'quaternion extraction picks a vanishing component', '/repo/datas/matrix44.cpp')
mk('mtx_decomp_neg', 'M01', [(M, 'if (r1().Dot(Vector4A16(Vector(r2()).Cross(r3()), 0.0f)) < 0)', 'if (r1().Dot(Vector4A16(Vector(r2()).Cross(r1()), 0.0f)) < 0)')],
   HM + 'int main() { esMatrix44 m({1,0,0,0},{0,1,0,0},{0,0,-2,0},{0,0,0,1}); Vector4A16 p, r, s; m.Decompose(p, r, s); return !eq(s.Z, -2.f); }',
   'a mirroring matrix', 'the sign of the decomposed scale', '/repo/datas/matrix44.cpp')
