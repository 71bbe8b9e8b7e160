FD = ["double", "float"]
INT = ["int", "long"]
NUM = FD + INT
S4 = [1, 2, 3, 4]
FOR = "for (std::size_t i = 0; i < S; ++i) "

# n + f with n integer and 0 <= f < 1: every real number, split for truncation
FRAC = "vp_assume(f[0] >= 0); vp_assume(f[0] < 1); "


def frac(n="S"):
    return f"for (std::size_t i = 0; i < {n}; ++i) {{ vp_assume(f[i] >= 0); vp_assume(f[i] < 1); }} "
