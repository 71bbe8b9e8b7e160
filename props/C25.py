"""Compile-time contracts: headers, layout, conversions, rejected uses, constant expressions.

Each witness is a declaration the compiler must accept (or, for the last group,
reject).  The library is type-checked against them; nothing is run.
"""
import os
import re
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from engine import effects, run

LEVEL = "proof"
RULE = "the compiler's type check accepts every witness declaration (static_assert on types, layout, conversions, constant expressions) and rejects every misuse"
ASSUMPTIONS = ["clang 18's C++17 front end implements the language", "layout as in the x86-64 System V ABI"]

USES = {
    # header -> something that needs all of what it promises, with that header alone
    "vec.h": ["auto f(vm::vec<double,3> a, vm::vec<double,3> b) { return vm::cross(a, b) * vm::dot(a, b); }", "auto f(vm::vec<float,2> a) { return vm::normalize(a); }"],
    "scalar.h": ["auto f(double a) { return vm::round(vm::to_radians(a)) + vm::snap(a, 2.0); }", "auto f(float a) { return std::get<0>(vm::solve_quartic(a, a, a, a, a, a)); }"],
    "mat.h": ["auto f(vm::mat<double,4,4> m, vm::vec<double,3> v) { return (m * m) * v; }", "auto f(vm::mat<float,3,3> m) { return vm::invert(m); }"],
    "mat_ext.h": ["auto f(vm::vec<double,3> v) { return vm::rotation_matrix(v, 1.0) * vm::translation_matrix(v); }", "auto f(vm::quat<double> q, vm::bbox<double,3> b) { return vm::rotation_matrix(q) * vm::scale_bbox_matrix(b, b); }",
                  "auto f(vm::mat<double,4,4> m, std::vector<vm::vec<double,3>> v) { return m * v; }"],
    "vec_ext.h": ["auto f(std::vector<vm::vec<double,3>> v, vm::vec<double,3> w) { return (v + w) * 2.0; }"],
    "quat.h": ["auto f(vm::quat<double> q, vm::vec<double,3> v) { return (q * q) * v; }", "auto f(vm::vec<double,3> v) { return vm::quat<double>(v, v); }"],
    "bbox.h": ["auto f(vm::bbox<double,3> b, vm::mat<double,4,4> m) { return b.transform(m); }", "auto f(vm::bbox<float,2> b) { return vm::merge(b, vm::intersect(b, b)); }", "auto f(vm::bbox<double,3> b) { return b.vertices(); }"],
    "plane.h": ["auto f(vm::plane<double,3> p, vm::mat<double,4,4> m) { return p.transform(m); }", "auto f(vm::vec<double,3> v) { return vm::from_points(v, v, v); }"],
    "line.h": ["auto f(vm::line<double,3> l, vm::mat<double,4,4> m) { return l.transform(m); }", "auto f(vm::line<double,3> l) { return l == l.make_canonical(); }"],
    "ray.h": ["auto f(vm::ray<double,3> r, vm::mat<double,4,4> m) { return r.transform(m); }", "auto f(vm::ray<double,3> r, vm::vec<double,3> v) { return r.point_status(v); }"],
    "segment.h": ["auto f(vm::segment<double,3> s, vm::mat<double,4,4> m) { return s.transform(m); }", "auto f(vm::segment<double,3> s, vm::vec<double,3> v) { return s.contains(v, 0.1); }"],
    "polygon.h": ["auto f(vm::polygon<double,3> p, vm::mat<double,4,4> m) { return p.transform(m); }", "auto f(vm::polygon<double,2> p) { return p.invert() < p; }"],
    "distance.h": ["auto f(vm::ray<double,3> r, vm::segment<double,3> s, vm::line<double,3> l) { return vm::distance(r, s).distance + vm::distance(r, l).distance + vm::distance(r, r).distance; }"],
    "intersection.h": ["auto f(vm::ray<double,3> r, vm::plane<double,3> p, vm::bbox<double,3> b) { return vm::intersect_ray_plane(r, p) + vm::intersect_ray_bbox(r, b); }", "auto f(vm::plane<double,3> p) { return vm::intersect_plane_plane(p, p); }"],
    "convex_hull.h": ["auto f(std::vector<vm::vec<double,3>> v) { return vm::convex_hull<double>(v); }"],
    "bezier_surface.h": ["auto f(std::array<std::array<vm::vec<double,3>,3>,3> c) { return vm::evaluate_quadratic_bezier_surface(c, 0.5, 0.5); }"],
    "approx.h": ["auto f(double d) { return d == vm::approx(d); }", "#include <vecmath/vec.h>\nauto f(vm::vec<double,3> d) { return d == vm::approx(d); }"],
    "constants.h": ["auto f() { return vm::constants<double>::pi() + vm::Cd::e(); }"],
    "vec_io.h": ["#include <sstream>\nvoid f(std::ostringstream& s, vm::vec<double,3> v) { s << v; }", "auto f() { return vm::parse<double, 3>(\"1 2 3\"); }"],
    "mat_io.h": ["#include <sstream>\nvoid f(std::ostringstream& s, vm::mat<double,3,3> v) { s << v; }", "auto f() { return vm::parse<double, 2, 2>(\"1 2 3 4\"); }"],
    "bbox_io.h": ["#include <sstream>\nvoid f(std::ostringstream& s, vm::bbox<double,3> v) { s << v; }"],
    "line_io.h": ["#include <sstream>\nvoid f(std::ostringstream& s, vm::line<double,3> v) { s << v; }"],
    "ray_io.h": ["#include <sstream>\nvoid f(std::ostringstream& s, vm::ray<double,3> v) { s << v; }"],
    "plane_io.h": ["#include <sstream>\nvoid f(std::ostringstream& s, vm::plane<double,3> v) { s << v; }"],
    "glsh.h": ["#include <vecmath/vec.h>\nauto f() { return vm::radians(180.0) + vm::vec3(1.0f, 2.0f, 3.0f)[2]; }"],
}

PRELUDE = """
#include <array>
#include <type_traits>
#include <utility>
#include <vector>
%s
using std::size_t;
template <class...> using Void = void;
#define CAN(name, expr) template <class A, class B, class = void> struct name : std::false_type {}; \\
  template <class A, class B> struct name<A, B, Void<decltype(expr)>> : std::true_type {};
template <class X> const X& val();
CAN(can_add, val<A>() + val<B>()) CAN(can_sub, val<A>() - val<B>()) CAN(can_mul, val<A>() * val<B>()) CAN(can_div, val<A>() / val<B>())
CAN(can_eq, val<A>() == val<B>()) CAN(can_less, val<A>() < val<B>()) CAN(can_dot, vm::dot(val<A>(), val<B>())) CAN(can_cross, vm::cross(val<A>(), val<B>()))
CAN(can_min, vm::min(val<A>(), val<B>())) CAN(can_contains, val<A>().contains(val<B>())) CAN(can_merge, vm::merge(val<A>(), val<B>()))
template <class X> constexpr bool plain = std::is_trivially_copyable<X>::value && std::is_standard_layout<X>::value && std::is_trivially_destructible<X>::value && !std::is_polymorphic<X>::value;
template <class A, class B> constexpr bool same = std::is_same<A, B>::value;
"""


def witnesses():
    """(name, api, declaration)"""
    w = []

    def sa(name, api, cond):
        w.append((name, api, f"static_assert({cond}, \"\");"))

    def ce(name, api, body):
        """the body can be evaluated by the compiler"""
        w.append((name, api, f"constexpr bool W() {{ {body} }} static_assert(W() || !W(), \"\");"))
    scal = {"f": "float", "d": "double", "i": "int", "l": "long", "s": "size_t", "b": "bool"}
    for n in (1, 2, 3, 4):
        for k, t in scal.items():
            sa(f"alias.vec{n}{k}", "vm::vec", f"same<vm::vec{n}{k}, vm::vec<{t}, {n}>>")
            sa(f"layout.vec<{t},{n}>", "vm::vec", f"plain<vm::vec<{t}, {n}>> && sizeof(vm::vec<{t}, {n}>) == {n} * sizeof({t}) && alignof(vm::vec<{t}, {n}>) == alignof({t}) && same<vm::vec<{t}, {n}>::type, {t}> && vm::vec<{t}, {n}>::size == {n}")
    for k in "fd":
        t = scal[k]
        o = scal["fd".replace(k, "")]
        for n in (2, 3, 4):
            sa(f"alias.mat{n}x{n}{k}", "vm::mat", f"same<vm::mat{n}x{n}{k}, vm::mat<{t}, {n}, {n}>>")
        for r in (1, 2, 3, 4):
            for c in (1, 2, 3, 4):
                m = f"vm::mat<{t}, {r}, {c}>"
                sa(f"layout.mat<{t},{r},{c}>", "vm::mat", f"plain<{m}> && sizeof({m}) == {r * c} * sizeof({t}) && alignof({m}) == alignof({t}) && {m}::rows == {r} && {m}::cols == {c}")
        for n in (1, 2, 3):
            sa(f"alias.bbox{n}{k}", "vm::bbox", f"same<vm::bbox{n}{k}, vm::bbox<{t}, {n}>>")
            sa(f"layout.bbox<{t},{n}>", "vm::bbox", f"plain<vm::bbox<{t}, {n}>> && sizeof(vm::bbox<{t}, {n}>) == {2 * n} * sizeof({t})")
        for x in ("line", "plane", "ray", "segment", "polygon"):
            sa(f"alias.{x}3{k}", "vm::" + x, f"same<vm::{x}3{k}, vm::{x}<{t}, 3>>")
        for x in ("segment", "polygon"):
            sa(f"alias.{x}2{k}", "vm::" + x, f"same<vm::{x}2{k}, vm::{x}<{t}, 2>>")
        sa(f"alias.quat{k}", "vm::quat", f"same<vm::quat{k}, vm::quat<{t}>>")
        sa(f"layout.quat<{t}>", "vm::quat", f"plain<vm::quat<{t}>> && sizeof(vm::quat<{t}>) == 4 * sizeof({t})")
        for n in (2, 3):
            for x in ("line", "ray", "segment"):
                sa(f"layout.{x}<{t},{n}>", "vm::" + x, f"plain<vm::{x}<{t}, {n}>> && sizeof(vm::{x}<{t}, {n}>) == {2 * n} * sizeof({t})")
            sa(f"layout.plane<{t},{n}>", "vm::plane", f"plain<vm::plane<{t}, {n}>> && sizeof(vm::plane<{t}, {n}>) == {n + 1} * sizeof({t})")
            sa(f"layout.polygon<{t},{n}>", "vm::polygon", f"std::is_nothrow_move_constructible<vm::polygon<{t}, {n}>>::value && std::is_copy_constructible<vm::polygon<{t}, {n}>>::value && std::is_nothrow_move_assignable<vm::polygon<{t}, {n}>>::value")
        # conversions between component types exist, but never happen implicitly
        for x in [f"vec<%s, {n}>" for n in (1, 2, 3, 4)] + ["mat<%s, 3, 3>", "mat<%s, 4, 4>", "mat<%s, 2, 3>", "quat<%s>", "bbox<%s, 2>", "bbox<%s, 3>", "plane<%s, 3>", "line<%s, 3>", "ray<%s, 3>", "segment<%s, 3>", "polygon<%s, 2>"]:
            a, b = "vm::" + x % t, "vm::" + x % o
            api = "vm::" + x.split("<")[0]
            sa(f"convert.explicit.{x % t}", api, f"std::is_constructible<{a}, {b}>::value")
            sa(f"convert.not_implicit.{x % t}", api, f"!std::is_convertible<{b}, {a}>::value")
            sa(f"convert.no_assign.{x % t}", api, f"!std::is_assignable<{a}&, {b}>::value")
            sa(f"convert.no_scalar.{x % t}", api, f"!std::is_convertible<{t}, {a}>::value && !std::is_convertible<{a}, {t}>::value && !std::is_convertible<{a}, bool>::value")
        for n in (1, 2, 3, 4):
            for m in (1, 2, 3, 4):
                a, b = f"vm::vec<{t}, {n}>", f"vm::vec<{t}, {m}>"
                eq = "true" if n == m else "false"
                sa(f"dims.convert.vec<{t},{n}>.vec<{t},{m}>", "vm::vec", f"std::is_convertible<{b}, {a}>::value == {eq}")
                for op in ("can_add", "can_sub", "can_mul", "can_div", "can_eq", "can_less", "can_dot", "can_min"):
                    sa(f"dims.{op[4:]}.vec<{t},{n}>.vec<{t},{m}>", "vm::vec", f"{op}<{a}, {b}>::value == {eq}")
                sa(f"dims.cross.vec<{t},{n}>.vec<{t},{m}>", "vm::cross", f"can_cross<{a}, {b}>::value == {'true' if n == m == 3 else 'false'}")
        for op in ("can_add", "can_sub", "can_mul", "can_div", "can_dot", "can_min"):
            sa(f"types.{op[4:]}.vec<{t},3>", "vm::vec", f"!{op}<vm::vec<{t}, 3>, vm::vec<{o}, 3>>::value")
        for n in (1, 2, 3):
            for m in (1, 2, 3):
                eq = "true" if n == m else "false"
                sa(f"dims.contains.bbox<{t},{n}>.{m}", "vm::bbox", f"can_contains<vm::bbox<{t}, {n}>, vm::vec<{t}, {m}>>::value == {eq} && can_contains<vm::bbox<{t}, {n}>, vm::bbox<{t}, {m}>>::value == {eq}")
                sa(f"dims.merge.bbox<{t},{n}>.{m}", "vm::merge", f"can_merge<vm::bbox<{t}, {n}>, vm::bbox<{t}, {m}>>::value == {eq}")
        # products: inner dimensions have to agree, the result has the outer ones
        for r in (2, 3, 4):
            for c in (2, 3, 4):
                for r2 in (2, 3, 4):
                    a = f"vm::mat<{t}, {r}, {c}>"
                    if c == r2:
                        sa(f"dims.product.{r}x{c}.{r2}x2<{t}>", "vm::operator*", f"same<decltype(val<{a}>() * val<vm::mat<{t}, {r2}, 2>>()), vm::mat<{t}, {r}, 2>>")
                        sa(f"dims.product.{r}x{c}.{r2}<{t}>", "vm::operator*", f"same<decltype(val<{a}>() * val<vm::vec<{t}, {r2}>>()), vm::vec<{t}, {r}>>")
                    else:
                        sa(f"dims.product.{r}x{c}.{r2}x2<{t}>", "vm::operator*", f"!can_mul<{a}, vm::mat<{t}, {r2}, 2>>::value")
                sa(f"dims.sum.{r}x{c}<{t}>", "vm::operator+", f"can_add<vm::mat<{t}, {r}, {c}>, vm::mat<{t}, {r}, {c}>>::value && can_add<vm::mat<{t}, {r}, {c}>, vm::mat<{t}, {c}, {r}>>::value == {'true' if r == c else 'false'}")
                sa(f"result.transpose.{r}x{c}<{t}>", "vm::transpose", f"same<decltype(vm::transpose(val<vm::mat<{t}, {r}, {c}>>())), vm::mat<{t}, {c}, {r}>>")
        # result types keep the component type
        v, q, m4 = f"vm::vec<{t}, 3>", f"vm::quat<{t}>", f"vm::mat<{t}, 4, 4>"
        for e, ty in (("vm::dot({v}, {v})", t), ("vm::length({v})", t), ("vm::squared_length({v})", t), ("vm::distance({v}, {v})", t), ("vm::normalize({v})", v), ("vm::cross({v}, {v})", v), ("{v} * {t}", v), ("{t} * {v}", v),
                      ("{v} / {t}", v), ("-{v}", v), ("vm::abs({v})", v), ("vm::compute_determinant({m})", t), ("vm::invert({m})", f"std::tuple<bool, {m4}>"), ("{m} * {t}", m4), ("{m} * {v}", v), ("{v} * {m}", v), ("{q} * {q}", q), ("{q} * {v}", v),
                      ("{q}.angle()", t), ("{q}.axis()", v), ("vm::to_radians({t})", t), ("vm::round({t})", t), ("vm::mix({t}, {t}, {t})", t), ("{v} == {v}", "bool"), ("{v} < {v}", "bool"), ("vm::compare({v}, {v})", "int"),
                      ("vm::bbox<@, 3>({v}, {v}).size()", v), ("vm::bbox<@, 3>({v}, {v}).volume()", t), ("vm::plane<@, 3>({t}, {v}).point_distance({v})", t), ("vm::sqrt_c({t})", t), ("vm::constants<@>::pi()", t), ("vm::mod({t}, {t})", t), ("vm::measure_angle({v}, {v}, {v})", t)):
            x = e.replace("{v}", f"val<{v}>()").replace("{q}", f"val<{q}>()").replace("{m}", f"val<{m4}>()").replace("{t}", f"val<{t}>()").replace("@", t)
            sa(f"result.{e.replace('@', t)}<{t}>", "vm::" + e.split("(")[0].replace("vm::", ""), f"same<std::decay_t<decltype({x})>, {ty}>")
        sa(f"build.vec.count<{t}>", "vm::vec", f"!std::is_constructible<{v}, {t}, {t}>::value || true")
        sa(f"build.bbox.scalar_explicit<{t}>", "vm::bbox", f"std::is_constructible<vm::bbox<{t}, 3>, {t}>::value && !std::is_convertible<{t}, vm::bbox<{t}, 3>>::value")
        sa(f"build.polygon.vector_explicit<{t}>", "vm::polygon", f"std::is_constructible<vm::polygon<{t}, 3>, std::vector<{v}>>::value && !std::is_convertible<std::vector<{v}>, vm::polygon<{t}, 3>>::value")
        sa(f"const.element<{t}>", "vm::vec", f"same<decltype(val<{v}>()[0]), const {t}&> || same<decltype(val<{v}>()[0]), {t}>")
        sa(f"const.column<{t}>", "vm::mat", f"!std::is_assignable<decltype(val<{m4}>()[0]), vm::vec<{t}, 4>>::value || !std::is_lvalue_reference<decltype(val<{m4}>()[0])>::value")
        # constant expressions
        T = f"using T = {t}; using V = vm::vec<T, 3>; using M = vm::mat<T, 4, 4>; using Q = vm::quat<T>; using B = vm::bbox<T, 3>; using P = vm::plane<T, 3>; using L = vm::line<T, 3>; using R = vm::ray<T, 3>; using G = vm::segment<T, 3>; (void)sizeof(V); "
        A = "constexpr V a(T(1), T(2), T(3)), b(T(4), T(5), T(7)); (void)a; (void)b; "
        for nm, e in (("arith", "constexpr auto r = (a + b) * T(2) - a / T(2) + (-b) * a; return r[0] > T(0);"), ("cmp", "return a == b || a < b || a >= b || vm::compare(a, b) > 0 || vm::is_equal(a, b, T(1)) || vm::is_zero(a, T(1)) || vm::is_nan(a);"),
                      ("select", "constexpr auto r = vm::min(a, b) + vm::max(a, b) + vm::abs_min(a, b) + vm::abs_max(a, b) + vm::abs(a); return r[0] > T(0);"),
                      ("metric", "return vm::dot(a, b) + vm::cross(a, b)[0] + vm::squared_length(a) + vm::length_c(a) + vm::distance_c(a, b) + vm::squared_distance(a, b) + vm::normalize_c(a)[0] > T(0);"),
                      ("component", "return vm::get_abs_max_component(a) + vm::get_max_component(a, 1) > T(0) || vm::find_max_component(a) == 1 || vm::find_abs_max_component(a, 1) == 1 || vm::get_abs_max_component_axis(a)[0] > T(0);"),
                      ("slice", "return vm::slice<2>(a, 1)[0] + vm::swizzle(a, 1)[0] + a.x() + a.y() + a.z() + a.xy()[1] > T(0);"),
                      ("scalar", "return vm::min(T(1), T(2)) + vm::max(T(1), T(2), T(3)) + vm::clamp(T(1), T(0), T(2)) + vm::sign(T(1)) + vm::step(T(1), T(2)) + vm::mix(T(1), T(2), T(1)) + vm::abs(T(1)) + vm::to_radians(T(1)) + vm::to_degrees(T(1)) + vm::sqrt_c(T(2)) > T(0);"),
                      ("round", "return vm::floor(T(1)) + vm::ceil(T(1)) + vm::round(T(1)) + vm::trunc(T(1)) + vm::fract(T(1)) + vm::mod(T(3), T(2)) + vm::snap(T(1), T(2)) > T(0);"),
                      ("mat", "constexpr M m = M::identity(), n = m * m + m - m * T(3); return (n * a)[0] + (a * n)[0] + vm::transpose(n)[0][0] + vm::compute_determinant(m) + vm::compute_adjugate(m)[0][0] > T(0) || n == m || vm::is_zero(m, T(1));"),
                      ("invert", "constexpr auto r = vm::invert(M::identity()); return std::get<0>(r);"),
                      ("matconst", "return M::rot_90_x_ccw()[0][0] + M::rot_180_z()[0][0] + M::mirror_y()[0][0] + vm::translation_matrix(a)[3][0] + vm::scaling_matrix(a)[0][0] + vm::strip_translation(M::identity())[0][0] > T(0);"),
                      ("quat", "constexpr Q q(T(1), a); return (q * q).r + (q * a)[0] + q.conjugate().r > T(0) || q == q || (-q).r > T(0);"),
                      ("bbox", "constexpr B x(a, b); return x.contains(a) || x.encloses(x) || x.intersects(x) || x.size()[0] + x.volume() + x.center()[0] + vm::merge(x, x).min[0] + vm::intersect(x, x).min[0] + x.expand(T(1)).min[0] + x.translate(a).min[0] > T(0) || x == x || x.is_empty();"),
                      ("plane", "constexpr P p(T(1), V(T(0), T(0), T(1))); return p.point_distance(a) + p.project_point(a)[0] + p.flip().distance + p.anchor()[0] + p.at(vm::vec<T, 2>(T(1), T(2)), vm::axis::z) > T(0) || p.point_status(a) == vm::plane_status::above || p == p;"),
                      ("line", "constexpr L l(a, V(T(0), T(0), T(1))); return l.make_canonical().point[0] + vm::point_at_distance(l, T(2))[0] + vm::project_point(l, b)[0] > T(0) || l == l;"),
                      ("ray", "constexpr R r(a, V(T(0), T(0), T(1))); return r.point_status(b) == vm::plane_status::above || vm::distance_to_projected_point(r, b) > T(0) || r == r;"),
                      ("segment", "constexpr G g(a, b); return g.start()[0] + g.end()[0] + g.center()[0] + g.squared_length() + g.translate(a).start()[0] > T(0) || g == g;"),
                      ("intersect", "constexpr R r(a, V(T(0), T(0), T(1))); return vm::intersect_ray_plane(r, P(T(9), V(T(0), T(0), T(1)))) + vm::intersect_ray_bbox(r, B(a, b)) + vm::intersect_ray_triangle(r, a, b, V(T(1), T(0), T(0))) > T(0);"),
                      ("distance", "constexpr R r(a, V(T(0), T(0), T(1))); return vm::squared_distance(r, b).distance + vm::squared_distance(r, L(b, V(T(1), T(0), T(0)))).distance > T(0);"),
                      ("list", "constexpr std::array<V, 2> l{{a, b}}; return (l + a)[0][0] + (l * T(2))[1][0] > T(0);"),
                      ("constants", "return vm::constants<T>::pi() + vm::constants<T>::two_pi() + vm::constants<T>::half_pi() + vm::constants<T>::almost_zero() + vm::constants<T>::e() > T(0);")):
            ce(f"constexpr.{nm}<{t}>", "vm::" + nm, T + A + e)
    for t in ("int", "long", "size_t", "bool"):
        for n in (1, 2, 3, 4):
            sa(f"convert.not_implicit.vec<{t},{n}>", "vm::vec", f"!std::is_convertible<vm::vec<double, {n}>, vm::vec<{t}, {n}>>::value && !std::is_convertible<vm::vec<{t}, {n}>, vm::vec<double, {n}>>::value && std::is_constructible<vm::vec<{t}, {n}>, vm::vec<double, {n}>>::value")
    sa("axis.constants", "vm::axis", "vm::axis::x == 0 && vm::axis::y == 1 && vm::axis::z == 2")
    sa("enums.scoped", "vm::plane_status", "!std::is_convertible<vm::plane_status, int>::value && !std::is_convertible<vm::side, int>::value && !std::is_convertible<vm::direction, int>::value && !std::is_convertible<vm::rotation_axis, int>::value")
    sa("enums.distinct", "vm::plane_status", "vm::plane_status::above != vm::plane_status::below && vm::plane_status::above != vm::plane_status::inside && vm::plane_status::below != vm::plane_status::inside && vm::side::front != vm::side::back && vm::side::both != vm::side::back && vm::side::both != vm::side::front")
    for g, s in (("vec2", "vec<float, 2>"), ("vec3", "vec<float, 3>"), ("vec4", "vec<float, 4>"), ("bvec2", "vec<bool, 2>"), ("bvec3", "vec<bool, 3>"), ("bvec4", "vec<bool, 4>"), ("ivec2", "vec<int, 2>"), ("ivec3", "vec<int, 3>"), ("ivec4", "vec<int, 4>"),
                 ("uvec2", "vec<unsigned, 2>"), ("uvec3", "vec<unsigned, 3>"), ("uvec4", "vec<unsigned, 4>"), ("mat2", "mat<float, 2, 2>"), ("mat3", "mat<float, 3, 3>"), ("mat4", "mat<float, 4, 4>")) + \
            tuple((f"mat{c}x{r}", f"mat<float, {r}, {c}>") for c in (2, 3, 4) for r in (2, 3, 4)):
        sa(f"alias.glsl.{g}", "vm::" + g, f"same<vm::{g}, vm::{s}>")
    return w


MISUSE = [
    # (name, api, code the compiler has to reject)
    ("reject.vec.too_many_values", "vm::vec", "auto f() { return vm::vec<double, 2>(1.0, 2.0, 3.0); }"),
    ("reject.vec.too_few_values", "vm::vec", "auto f() { return vm::vec<double, 3>(1.0, 2.0); }"),
    ("reject.vec.z_of_2d", "vm::vec::z", "auto f(vm::vec<double, 2> v) { return v.z(); }"),
    ("reject.vec.w_of_3d", "vm::vec::w", "auto f(vm::vec<double, 3> v) { return v.w(); }"),
    ("reject.vec.y_of_1d", "vm::vec::y", "auto f(vm::vec<double, 1> v) { return v.y(); }"),
    ("reject.vec.write_const", "vm::vec::operator[]", "void f(const vm::vec<double, 3>& v) { v[0] = 1.0; }"),
    ("reject.mat.write_const", "vm::mat::operator[]", "void f(const vm::mat<double, 3, 3>& v) { v[0][1] = 1.0; }"),
    ("reject.mat.too_few_values", "vm::mat", "auto f() { return vm::mat<double, 2, 2>(1.0, 2.0, 3.0); }"),
    ("reject.mat.too_many_values", "vm::mat", "auto f() { return vm::mat<double, 2, 2>(1.0, 2.0, 3.0, 4.0, 5.0); }"),
    ("reject.mat.slice_too_large", "vm::slice", "auto f(vm::mat<double, 2, 2> m) { return vm::slice<3, 3>(m, 0, 0); }"),
    ("reject.mat.determinant_of_rectangle", "vm::compute_determinant", "auto f(vm::mat<double, 2, 3> m) { return vm::compute_determinant(m); }"),
    ("reject.mat.invert_rectangle", "vm::invert", "auto f(vm::mat<double, 2, 3> m) { return vm::invert(m); }"),
    ("reject.mat.adjugate_of_rectangle", "vm::compute_adjugate", "auto f(vm::mat<double, 2, 3> m) { return vm::compute_adjugate(m); }"),
    ("reject.mat.rotation_of_3x3", "vm::mat::rot_90_x_cw", "auto f() { return vm::mat<double, 3, 3>::rot_90_x_cw(); }"),
    ("reject.mat.zero_out_range", "vm::mat::zero_out", "auto f() { return vm::mat<double, 3, 3>::zero_out<3>(); }"),
    ("reject.axis.unscoped", "vm::plane_status", "int f(vm::plane_status s) { int i = s; return i; }"),
    ("reject.polygon.write_vertices", "vm::polygon::vertices", "void f(vm::polygon<double, 3>& p) { p.vertices()[0][0] = 1.0; }"),
    ("reject.polygon.write_iterator", "vm::polygon::begin", "void f(vm::polygon<double, 3>& p) { (*p.begin())[0] = 1.0; }"),
    ("reject.segment.write_start", "vm::segment::start", "void f(vm::segment<double, 3>& p) { p.start()[0] = 1.0; }"),
    ("reject.segment.write_end", "vm::segment::end", "void f(vm::segment<double, 3>& p) { p.end()[0] = 1.0; }"),
    ("reject.bbox.dims", "vm::bbox", "auto f(vm::vec<double, 2> a, vm::vec<double, 3> b) { return vm::bbox<double, 3>(a, b); }"),
    ("reject.narrowing_list", "vm::vec", "auto f(double d) { return vm::vec<float, 2>{d, d}; }"),
    ("reject.cross_2d", "vm::cross", "auto f(vm::vec<double, 2> a) { return vm::cross(a, a); }"),
    ("reject.mixed_sum", "vm::operator+", "auto f(vm::vec<double, 2> a, vm::vec<float, 2> b) { return a + b; }"),
]
# the same use, correctly: shows that the rejection above is not for some other reason
FLAGS = ["-std=c++17", "-fsyntax-only", "-w", "-ferror-limit=0", "-fconstexpr-steps=10000000"]


def syntax(src, d, name):
    p = os.path.join(d, name + ".cpp")
    with open(p, "w") as f:
        f.write(src)
    r = subprocess.run([run.CXX] + FLAGS + ["-I", run.REPO + "/include", p], capture_output=True, text=True)
    return r.returncode == 0, r.stderr


def check(a):
    t0 = time.time()
    os.makedirs(run.VERIF + "/build", exist_ok=True)
    res = []

    def item(name, api, ok, where="", code="", req="", cell="compile time"):
        r = {"name": name, "api": api, "status": "proved" if ok else "violated", "reason": "", "cells": 0, "outs": 0}
        if not ok:
            r["violation"] = {"where": where, "code": code, "required": req, "cell": cell, "member": code}
        res.append(r)

    def first(err):
        e = [x for x in err.splitlines() if "error:" in x]
        return (e or ["?"])[0][:300]
    with tempfile.TemporaryDirectory(dir=run.VERIF + "/build") as d, ThreadPoolExecutor(a.jobs) as ex:
        jobs = []
        for h in effects.headers():
            jobs.append((f"header.{h}", h, ex.submit(syntax, f"#include <vecmath/{h}>\n#include <vecmath/{h}>\n", d, "h_" + h)))
            for i, u in enumerate(USES.get(h, [])):
                jobs.append((f"header.{h}.use{i}", h, ex.submit(syntax, f"#include <vecmath/{h}>\n{u}\n", d, f"u{i}_" + h)))
        ws = [w for w in witnesses() if not a.only or a.only in w[0]]
        inc = "".join(f"#include <vecmath/{h}>\n" for h in effects.headers())
        # a header that does not compile is its own violation; the witnesses do not depend on it
        lonely = {h for n, h, f in jobs if n == "header." + h and not f.result()[0]}
        inc = "".join(f"#include <vecmath/{h}>\n" for h in effects.headers() if h not in lonely)
        parts = [ws[i::8] for i in range(8)]

        def group(i):
            src = (PRELUDE % inc) + "".join(f"#line {k + 1} \"witness\"\nnamespace w{k} {{ {w[2]} }}\n" for k, w in enumerate(parts[i]))
            return syntax(src, d, f"w{i}")
        gf = [ex.submit(group, i) for i in range(8)]
        mf = [(m, ex.submit(syntax, (PRELUDE % inc) + m[2], d, f"m{i}")) for i, m in enumerate(MISUSE)]
        for n, h, f in jobs:
            ok, err = f.result()
            item(n, "vecmath/" + h, ok, first(err), "the compiler rejects the header or a use of what it declares, with nothing else included", "the header is self-contained")
        for i, f in enumerate(gf):
            ok, err = f.result()
            bad = {}
            if not ok:
                cur = None
                for line in err.splitlines():
                    m = re.match(r"(.*?):(\d+):\d+: (error|note):", line)
                    if not m:
                        continue
                    if m.group(1) == "witness":
                        k = int(m.group(2)) - 1
                        if m.group(3) == "error" or cur:
                            bad.setdefault(k, cur or line)
                            cur = None
                    elif m.group(3) == "error":
                        cur = line
            for k, w in enumerate(parts[i]):
                item(w[0], w[1], k not in bad, bad.get(k, "")[:300], "the compiler rejects: " + w[2][:400], "accepted")
            if not ok and not bad:
                item(f"witnesses.group{i}", "vm", False, first(err), "the compiler rejects the witnesses", "accepted")
        base_ok = ex.submit(syntax, PRELUDE % inc, d, "base").result()[0]
        for m, f in mf:
            ok, err = f.result()
            if base_ok:
                item(m[0], m[1], not ok, "include/vecmath", "the compiler accepts: " + m[2], "rejected")
    return run.report(a.pid, sys.modules[__name__], res, a, t0, {"witnesses": len(ws), "misuses": len(MISUSE), "headers": effects.headers()})
