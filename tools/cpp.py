"""Behaviours of a specification as straight-line C++ against mito's public interface. One operation,
one statement: nothing is decided here."""
import json


def const(kind, a):
    return {"s": "scalar(%d)", "v": "V(%d,%d)", "m": "M(%d,%d,%d,%d)"}[kind] % tuple(a)


TYPE = {"s": "scalar", "v": "vec", "m": "mat"}


def functions_case(number, path):
    lines = []
    for n, op in enumerate(path):
        name, a = op[0], op[1:]
        f = lambda i: "f%d" % a[i]
        if name == "lib":
            e = "mito::functions::" + a[0]
        elif name == "pow":
            e = "mito::functions::pow<%d>" % a[0]
        elif name == "comp":
            e = "mito::functions::component<vec, %d>" % (a[0] - 1)
        elif name == "const":
            e = "mito::functions::constant<%s>(%s)" % (TYPE[a[0]], const(a[1], a[2:]))
        elif name == "formula":
            x = "x * x" if a[0] == "s" else "x[0] * x[1]"
            t = lambda i: ("%s + %d" % (x, a[2] * i)) if a[0] == "s" else ("%s + %d * x[0]" % (x, a[2] * i))
            body = t(1) if a[1] == "s" else "V(%s, %s)" % (t(1), t(2))
            e = "mito::functions::function([](const %s & x) -> %s { return %s; })" % (TYPE[a[0]], TYPE[a[1]], body)
        elif name in ("add", "sub", "mul", "div"):
            e = "%s %s %s" % (f(0), {"add": "+", "sub": "-", "mul": "*", "div": "/"}[name], f(1))
        elif name == "add3":
            e = "mito::functions::summation(%s, %s, %s)" % (f(0), f(1), f(2))
        elif name == "comb":
            e = "mito::functions::linear_combination(std::array<scalar, 2>{%d, %d}, %s, %s)" % (a[0], a[1], f(2), f(3))
        elif name in ("addc", "subc", "mulc"):
            e = "%s %s %s" % (f(0), {"addc": "+", "subc": "-", "mulc": "*"}[name], const(a[1], a[2:]))
        elif name in ("cadd", "csub", "cmul", "cdiv"):
            e = "%s %s %s" % (const(a[1], a[2:]), {"cadd": "+", "csub": "-", "cmul": "*", "cdiv": "/"}[name], f(0))
        elif name == "divc":
            e = "%s / scalar(%d)" % (f(0), a[1])
        elif name == "neg":
            e = "-" + f(0)
        elif name == "transpose":
            e = "mito::functions::transpose(%s)" % f(0)
        elif name == "det":
            e = "mito::functions::determinant(%s)" % f(0)
        elif name == "inv":
            e = "mito::functions::inverse(%s)" % f(0)
        elif name == "dyadic":
            e = "mito::functions::dyadic(%s, %s)" % (f(0), f(1))
        elif name == "atv":
            e = "%s[%d]" % (f(0), a[1] - 1)
        elif name in ("atm", "atr", "atc"):
            k = a[1] - 1
            ij = {"m": (k // 2, k % 2), "r": (0, k), "c": (k, 0)}[name[2]]
            e = "%s[{%d, %d}]" % (f(0), *ij)
        elif name == "compose":
            e = "%s(%s)" % (f(0), f(1))
        elif name == "d":
            e = "mito::functions::derivative<%d>(%s)" % (a[1] - 1, f(0))
        elif name == "grad":
            e = "mito::functions::derivative(%s)" % f(0)
        elif name == "vector":
            e = "%s * V(1, 0) + %s * V(0, 1)" % (f(0), f(1))
        else:
            raise KeyError(name)
        lines.append("    const auto f%d = %s;" % (n + 1, e))
        lines.append("    rec(%s, %s, f%d);" % (json.dumps(name), json.dumps(json.dumps(list(a))), n + 1))
    return "static void case_%d()\n{\n%s\n}\nstatic Register r_%d(%d, case_%d);\n" % (
        number, "\n".join(lines), number, number, number)


def value(r, c, a):
    a = ["double(%d)" % x for x in a]
    if r == 0:
        return a[0]
    return ("vec<%d>({%s})" % (r, ", ".join(a))) if c == 0 else ("mat<%d, %d>({%s})" % (r, c, ", ".join(a)))


def fields_case(number, path):
    """fields in the space of dimension given by the first operation"""
    d = path[0][1]
    x = "X<%d>" % d
    lines = []
    for n, op in enumerate(path[1:], 1):
        name, a = op[0], op[1:]
        f = lambda i: "f%d" % a[i]
        if name == "comp":
            e = "functions::component<%s, %d>" % (x, a[0] - 1)
        elif name == "const":
            e = "functions::constant<%s>(%s)" % (x, value(a[0], a[1], a[2:]))
        elif name == "formula":
            e = "functions::function([](const %s & x) -> double { return double(%d) * x[0] * x[%d] + double(%d); })" % (
                x, a[0], d - 1, a[1])
        elif name == "vector":
            e = " + ".join("f%d * tensor::e<%d, %d>" % (k, i, a[0]) for i, k in enumerate(a[2:]))
        elif name == "matrix":
            e = " + ".join("f%d * tensor::unit<tensor::matrix_t<%d, %d>, %d, %d>" % (k, a[0], a[1], i // a[1], i % a[1])
                           for i, k in enumerate(a[2:]))
        elif name in ("add", "sub", "mul"):
            e = "%s %s %s" % (f(0), {"add": "+", "sub": "-", "mul": "*"}[name], f(1))
        elif name == "neg":
            e = "-" + f(0)
        elif name in ("square", "cube"):
            e = "functions::pow<%d>(%s)" % ({"square": 2, "cube": 3}[name], f(0))
        elif name == "transpose":
            e = "functions::transpose(%s)" % f(0)
        elif name == "dyadic":
            e = "functions::dyadic(%s, %s)" % (f(0), f(1))
        elif name == "at":
            e = "at<%d>(%s)" % (a[1] - 1, f(0))
        elif name == "d":
            e = "functions::derivative<%d>(%s)" % (a[1] - 1, f(0))
        elif name == "grad":
            e = "fields::gradient(%s)" % f(0)
        elif name == "div":
            e = "fields::divergence(%s)" % f(0)
        else:
            raise KeyError(name)
        lines.append("    const auto f%d = %s;" % (n, e))
        lines.append("    rec(%s, %s, f%d);" % (json.dumps(name), json.dumps(json.dumps(list(a))), n))
    return "static void case_%d()\n{\n    space(%d);\n%s\n}\nstatic Register r_%d(%d, case_%d);\n" % (
        number, d, "\n".join(lines), number, number, number)
