"""Polynomial equations: number of solutions and the solutions themselves."""
from engine.obl import Spec
from .common import *

INCLUDES = ["scalar.h", "vec.h"]
HDR = """
template <typename T> bool s_isnan(T x) { return x != x; }
template <typename T> void put2(T* out, const std::tuple<std::size_t, T, T>& r) { out[0] = T(std::get<0>(r)); const T s[2] = { std::get<1>(r), std::get<2>(r) }; for (std::size_t i = 0; i < 2; ++i) { out[1+i] = s_isnan(s[i]); out[3+i] = s_isnan(s[i]) ? T(0) : s[i]; } }
template <typename T> void put3(T* out, const std::tuple<std::size_t, T, T, T>& r) { out[0] = T(std::get<0>(r)); const T s[3] = { std::get<1>(r), std::get<2>(r), std::get<3>(r) }; for (std::size_t i = 0; i < 3; ++i) { out[1+i] = s_isnan(s[i]); out[4+i] = s_isnan(s[i]) ? T(0) : s[i]; } }
template <typename T> void put4(T* out, const std::tuple<std::size_t, T, T, T, T>& r) { out[0] = T(std::get<0>(r)); const T s[4] = { std::get<1>(r), std::get<2>(r), std::get<3>(r), std::get<4>(r) }; for (std::size_t i = 0; i < 4; ++i) { out[1+i] = s_isnan(s[i]); out[5+i] = s_isnan(s[i]) ? T(0) : s[i]; } }
template <std::size_t N, typename T> void ans(T* out, std::initializer_list<T> l) { std::size_t i = 0; out[0] = T(l.size()); for (T x : l) { out[1+i] = 0; out[1+N+i] = x; ++i; } for (; i < N; ++i) { out[1+i] = 1; out[1+N+i] = 0; } }
"""


def obligations(tier):
    s = Spec("C20")
    e = dict(T=FD, hdr=HDR)
    ez = "vp_assume(eps[0] >= 0); vp_assume(a[0] != 0); "
    # a (x - m - h)(x - m + h)
    s.ob("quadratic.two", "a m h eps", 5, "put2(out, vm::solve_quadratic(a[0], T(-2)*a[0]*m[0], a[0]*(m[0]*m[0] - h[0]*h[0]), eps[0]));",
         ez + "vp_assume(h[0] > 0); vp_assume(h[0]*h[0] > eps[0]); ans<2>(out, {m[0] + h[0], m[0] - h[0]});", api="vm::solve_quadratic", **e)
    s.ob("quadratic.one", "a m h eps", 5, "put2(out, vm::solve_quadratic(a[0], T(-2)*a[0]*m[0], a[0]*(m[0]*m[0] - h[0]), eps[0]));",
         ez + "vp_assume(h[0] <= eps[0]); vp_assume(-h[0] <= eps[0]); ans<2>(out, {m[0]});", api="vm::solve_quadratic", **e)
    s.ob("quadratic.none", "a m h eps", 5, "put2(out, vm::solve_quadratic(a[0], T(-2)*a[0]*m[0], a[0]*(m[0]*m[0] + h[0]), eps[0]));",
         ez + "vp_assume(h[0] > eps[0]); ans<2>(out, {});", api="vm::solve_quadratic", **e)
    # a ((x + h)^3 + 3 p (x + h) + 2 q)
    cub = "put3(out, vm::solve_cubic(a[0], T(3)*a[0]*h[0], a[0]*(T(3)*h[0]*h[0] + T(3)*p), a[0]*(h[0]*h[0]*h[0] + T(3)*p*h[0] + T(2)*q), eps[0]));"
    uv = "const T u3 = u[0]*u[0]*u[0], v3 = v[0]*v[0]*v[0], q = -(u3 + v3)/2, p = -u[0]*v[0]; "
    s.ob("cubic.one", "a h u v eps", 7, uv + cub, ez + uv + "vp_assume(u[0] > v[0]); vp_assume(u3 > v3); vp_assume((u3 - v3)*(u3 - v3)/4 > eps[0]); ans<3>(out, {u[0] + v[0] - h[0]});", api="vm::solve_cubic", **e)
    s.ob("cubic.two", "a h u eps", 7, "const T q = -u[0]*u[0]*u[0], p = -u[0]*u[0]; " + cub, ez + "const T q = u[0]*u[0]*u[0]; vp_assume(q > eps[0] || -q > eps[0]); ans<3>(out, {2*u[0] - h[0], -u[0] - h[0]});", api="vm::solve_cubic", **e)
    s.ob("cubic.triple", "a h eps", 7, "const T q = 0, p = 0; " + cub, ez + "ans<3>(out, {-h[0]});", api="vm::solve_cubic", **e)
    # three solutions: p = -s^2, q = -s^3 cos(t); solutions 2 s cos((t + 2 k pi)/3)
    th = "const T c = std::cos(t[0]), p = -s[0]*s[0], q = -s[0]*s[0]*s[0]*c; "
    s.ob("cubic.three", "a h s t eps", 7, th + cub, ez + th + "(void)p; (void)q; const T pi = vm::constants<T>::pi(); vp_assume(s[0] > 0); vp_assume(t[0] > 0); vp_assume(t[0] < pi); const T s3 = s[0]*s[0]*s[0]; vp_assume(c < 1); vp_assume(c > -1); vp_assume(s3*s3*(1 - c*c) > eps[0]); "
         "ans<3>(out, {2*s[0]*std::cos(t[0]/3) - h[0], -2*s[0]*std::cos(t[0]/3 + pi/3) - h[0], -2*s[0]*std::cos(t[0]/3 - pi/3) - h[0]});", api="vm::solve_cubic", **e)
    # a ((x + h)^4 + p (x + h)^2 + q (x + h) + r)
    qua = ("put4(out, vm::solve_quartic(a[0], T(4)*a[0]*h[0], a[0]*(T(6)*h[0]*h[0] + p[0]), a[0]*(T(4)*h[0]*h[0]*h[0] + T(2)*p[0]*h[0] + q[0]), a[0]*(h[0]*h[0]*h[0]*h[0] + p[0]*h[0]*h[0] + q[0]*h[0] + r[0]), eps[0]));")
    # y (y^3 + 3 P y + 2 Q): the solutions of the cubic, then y = 0
    nz = "const T p[1] = {3*P}, q[1] = {2*Q}, r[1] = {0}; " + qua
    s.ob("quartic.no_absolute_term.one", "a h u v eps", 9, uv.replace(" q =", " Q =").replace(" p =", " P =") + nz, ez + uv + "(void)p; (void)q; vp_assume(u[0] > v[0]); vp_assume(u3 > v3); vp_assume((u3 - v3)*(u3 - v3)/4 > eps[0]); ans<4>(out, {u[0] + v[0] - h[0], -h[0]});", api="vm::solve_quartic", **e)
    s.ob("quartic.no_absolute_term.two", "a h u eps", 9, "const T Q = -u[0]*u[0]*u[0], P = -u[0]*u[0]; " + nz, ez + "const T q = u[0]*u[0]*u[0]; vp_assume(q > eps[0] || -q > eps[0]); ans<4>(out, {2*u[0] - h[0], -u[0] - h[0], -h[0]});", api="vm::solve_quartic", **e)
    s.ob("quartic.no_absolute_term.triple", "a h eps", 9, "const T Q = 0, P = 0; " + nz, ez + "ans<4>(out, {-h[0], -h[0]});", api="vm::solve_quartic", **e)
    s.ob("quartic.no_absolute_term.three", "a h s t eps", 9, th.replace(" q =", " Q =").replace(" p =", " P =") + nz, ez + th + "(void)p; (void)q; const T pi = vm::constants<T>::pi(); vp_assume(s[0] > 0); vp_assume(t[0] > 0); vp_assume(t[0] < pi); const T s3 = s[0]*s[0]*s[0]; vp_assume(c < 1); vp_assume(c > -1); vp_assume(s3*s3*(1 - c*c) > eps[0]); "
         "ans<4>(out, {2*s[0]*std::cos(t[0]/3) - h[0], -2*s[0]*std::cos(t[0]/3 + pi/3) - h[0], -2*s[0]*std::cos(t[0]/3 - pi/3) - h[0], -h[0]});", api="vm::solve_quartic", **e)
    for rs, R, G in (('r+', '>', ''), ('r-', '<', '-')):
        # the general case, given a solution z of the resolvent cubic: (y^2 + w y + z - u)(y^2 - w y + z + u)
        tail = "out[9] = -p[0]/2; out[10] = -r[0]; out[11] = r[0]*p[0]/2 - q[0]*q[0]/8; "
        clr = f"vp_assume(eps[0] > 0); vp_assume(r[0] {R} 0); vp_assume({G}r[0] > eps[0]); "
        cases = {
            # name: (inputs, u, z, conditions, solutions)
            "four": ("m k", "(m[0]*m[0] - k[0]*k[0])/2", "w[0]*w[0]/4 - (m[0]*m[0] + k[0]*k[0])/2", "m[0] > k[0] && k[0] > 0 && m[0] > 0 && m[0]*m[0] > eps[0] && k[0]*k[0] > eps[0]", "-x/2 + m[0] - h[0], -x/2 - m[0] - h[0], x/2 + k[0] - h[0], x/2 - k[0] - h[0]"),
            "two": ("m k", "(m[0]*m[0] + k[0])/2", "w[0]*w[0]/4 - (m[0]*m[0] - k[0])/2", "m[0] > 0 && m[0]*m[0] > eps[0] && k[0] > eps[0]", "-x/2 + m[0] - h[0], -x/2 - m[0] - h[0]"),
            "three": ("m", "m[0]*m[0]/2", "w[0]*w[0]/4 - m[0]*m[0]/2", "m[0] > 0 && m[0]*m[0] > eps[0]", "-x/2 + m[0] - h[0], -x/2 - m[0] - h[0], x/2 - h[0]"),
            "one": ("k", "k[0]/2", "w[0]*w[0]/4 + k[0]/2", "k[0] > eps[0]", "-x/2 - h[0]"),
            "none": ("m k", "k[0]/2", "w[0]*w[0]/4 + k[0]/2 + m[0]", "k[0] > 0 && m[0] > eps[0]", ""),
        }
        for nm, (ins, u, z, cond, sol) in cases.items():
            for sg in (1, -1):
                co = f"const T u = {u}; const T p[1] = {{2*z[0] - w[0]*w[0]}}, q[1] = {{{'' if sg > 0 else '-'}2*u*w[0]}}, r[1] = {{z[0]*z[0] - u*u}}; "
                pre = f"vp_assume(w[0] > 0); vp_assume(z[0] == {z}); " + "".join(f"vp_assume({c}); " for c in cond.split(" && "))
                s.ob(f"quartic.{nm}.{'pos' if sg > 0 else 'neg'}.{rs}", f"a h w {ins} z eps", 12, co + tail + qua,
                     ez + co + clr + "vp_assume(u > 0); vp_assume(u*u > eps[0]); vp_assume(w[0]*w[0] > eps[0]); " + tail + f"const T x = {'' if sg > 0 else '-'}w[0]; (void)x; ans<4>(out, {{{sol}}});", pre=pre, api="vm::solve_quartic", contract=9, **e)
        # biquadratic (q = 0): u = 0 or w = 0
        s.ob(f"quartic.biquadratic.two.{rs}", "a h k z u eps", 12, "const T p[1] = {2*z[0]}, q[1] = {0}, r[1] = {z[0]*z[0] - u[0]*u[0]}; " + tail + qua,
             ez + clr.replace("r[0]", "(z[0]*z[0] - u[0]*u[0])") + "const T p[1] = {2*z[0]}, q[1] = {0}, r[1] = {z[0]*z[0] - u[0]*u[0]}; " + tail + "vp_assume(u[0] > 0); vp_assume(u[0]*u[0] > eps[0]); vp_assume(k[0] > 0); vp_assume(k[0]*k[0] > eps[0]); vp_assume(2*u[0] - k[0]*k[0] > eps[0]); ans<4>(out, {k[0] - h[0], -k[0] - h[0]});", pre="vp_assume(z[0] == u[0] - k[0]*k[0]); ", api="vm::solve_quartic", contract=9, **e)
        s.ob(f"quartic.biquadratic.four.{rs}", "a h k z w eps", 12, "const T p[1] = {2*z[0] - w[0]*w[0]}, q[1] = {0}, r[1] = {z[0]*z[0]}; " + tail + qua,
             ez + "const T p[1] = {2*z[0] - w[0]*w[0]}, q[1] = {0}, r[1] = {z[0]*z[0]}; " + clr + tail + "vp_assume(w[0] > 0); vp_assume(w[0]*w[0] > eps[0]); vp_assume(k[0] > 0); vp_assume(k[0]*k[0] > eps[0]); ans<4>(out, {-w[0]/2 + k[0] - h[0], -w[0]/2 - k[0] - h[0], w[0]/2 + k[0] - h[0], w[0]/2 - k[0] - h[0]});", pre="vp_assume(z[0] == w[0]*w[0]/4 - k[0]*k[0]); ", api="vm::solve_quartic", contract=9, **e)
        # no real factorisation for this z
        for nm, u2, v2 in (("u", "-g[0]", "w[0]"), ("v", "w[0]", "-g[0]"), ("uv", "-w[0]", "-g[0]")):
            co = f"const T uu = {u2}, vv = {v2}; const T p[1] = {{2*z[0] - vv}}, r[1] = {{z[0]*z[0] - uu}}; "
            s.ob(f"quartic.no_factors.{nm}.{rs}", "a h z g w q eps", 12, co + tail + qua, ez + co + clr + tail + "vp_assume(g[0] > eps[0]); vp_assume(w[0] > eps[0]); ans<4>(out, {});", api="vm::solve_quartic", contract=9, **e)
    # combinations that cannot occur
    skip = ("quartic.biquadratic.two.r+", "quartic.no_factors.u.r-", "quartic.no_factors.uv.r-", "quartic.one.neg.r-", "quartic.one.pos.r-")
    return [o for o in s.obs if not o.name.startswith(skip)]
