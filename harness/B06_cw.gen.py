"""Regenerate the C and CBLAS wrappers for the checking scalar type from the
repository's own sources: float/double become the symbolic real type, their
complex counterparts the symbolic complex type, and each build of the wrapper
file goes into its own namespace.  Nothing else is changed."""
import os
import re
import sys

repo, out = sys.argv[1], sys.argv[2]


def subst(t):
    t = re.sub(r"^\s*#\s*include.*$", "", t, flags=re.M)
    t = re.sub(r"^@\w+@.*$", "", t, flags=re.M)
    t = re.sub(r"std::complex<\s*(float|double)\s*>", "SComplex", t)
    t = re.sub(r"\b(float|double)\s+_Complex\b", "SComplex", t)
    t = re.sub(r"\b(float|double)\b", "SReal", t)
    return t


def rd(p):
    return open(os.path.join(repo, p)).read()


src = subst(rd("src/tlapack_cwrappers.cpp"))
hc = subst(rd("include/tlapack.h.in"))
hb = subst(rd("include/tlapack_cblas.h.in"))
with open(os.path.join(out, "B06_cw_gen.hpp"), "w") as f:
    f.write("// generated from src/tlapack_cwrappers.cpp, include/tlapack.h.in, include/tlapack_cblas.h.in\n")
    f.write("namespace cwc {\n%s\n%s\n}\n" % (hc, src))
    f.write("#undef BLAS_FUNCTION\n#define BUILD_CBLAS\n")
    f.write("namespace cwb {\n%s\n%s\n}\n#undef BUILD_CBLAS\n" % (hb, src))
