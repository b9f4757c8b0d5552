"""S03: the row filter language (Filter.tla, FilterTrace.tla)."""
import ast
import os

import numpy as np

from vlib import env, report, traces

PID = "S03"
ORDER = ["<", "<=", ">", ">=", "==", "!="]
BAD_NUMBERS = ["gf.T", "gf.__class__", "gf[gf > 0]", "gf[:, None]", "gf[:, 0.0]", "gf[:, True]", "gf[:, 1 - 1]", "(gf[:, 0] << 1)", "(gf @ gf)", "missing[:, 0]", "__builtins__",
               "np.sum(gf, 1)", "np.sign(gf[:, 0])", "sum(gf)", "len(gf)", "max(gf[:, 0])", "2**gf[:, 0]", "gf[:, 0]**9", "gf[:, 0]**-1", "gf[:, 0]**2.0", "gf[:, 0]**True", "gf[:, 0]**(1 + 1)",
               "9223372036854775808", "1e999", "'1'", "b'1'", "1j", "f'{1}'", "(lambda: gf[:, 0])()", "(gf[:, 0] if 1 else gf[:, 1])", "[gf[:, 0]]", "(gf[:, 0],)",
               "[x for x in gf][0]", "(g := gf[:, 0])", "{1: 2}[1]", "gf[:, [i for i in (0, 1)]]", "gf[slice(None), 0]", "gf[..., ...]", "gf['a']", "gf[:, 99]", "gf[0, 0, 0]", "gf[:, 0, ...][0, 0]",
               "np[:, 0]", "abs(*[gf[:, 0]])", "abs(gf[:, 0], out=gf[:, 0])", "abs(gf[:, 0], where=False)", "abs()", "np.abs.reduce(gf, 1)", "np.load('MARK')", "open('MARK', 'w')",
               "__import__('os').system('touch MARK')", "gf.tofile('MARK')", "gf.fill(0)", "getattr(np, 'save')('MARK', gf)", "np.save('MARK', gf)", "gf[:, " + "0" * 4100 + "]",
               "gf[:, [" + "0, " * 70 + "]][:, 0]", "+".join(["gf[:, 0]"] * 30), "-" * 20 + "gf[:, 0]", "9" * 30, "not gf[:, 0]"]
BAD_TRUTHS = ["(gf[:, 0] > 0 and vt[:, 0] > 0)", "(gf[:, 0] > 0 or vt[:, 0] > 0)", "(not gf[:, 0] > 0)", "(gf[:, 0] is vt[:, 0])", "(1 in gf)", "(gf[:, 0] not in vt)", "(gf[:, 0] > 0).all()",
              "np.isinf(vt[:, 0])", "np.logical_xor(gf[:, 0] > 0, vt[:, 0] > 0)", "any(gf[:, 0] > 0)", "[v > 0 for v in gf[:, 0]]", "np.where(gf[:, 0] > 0)", "eval('gf[:, 0] > 0')",
              "exec('1')", "(yield gf[:, 0] > 0)", "gf[:, 0] > 0; vt", "gf[:, 0] >", "", " ", "x = 1", "-(gf[:, 0] > 0)"]


class Maker:
    def __init__(self, rng, mark):
        self.rng, self.mark = rng, mark
        self.n = rng.randint(2, 6)
        n = self.n
        self.arrays = dict(gf=np.array([[rng.randint(-3, 3) for _ in range(3)] for _ in range(n)], dtype=rng.choice(["float32", "float64", "int64", "int16"])),
                           vt=np.array([[rng.choice([rng.randint(-9, 9) / 4, rng.randint(0, 4) / 4, float("nan") if rng.random() < 0.2 else 0]) for _ in range(4)] for _ in range(n)], dtype=rng.choice(["float32", "float64"])),
                           bf=np.array([rng.randint(0, 1) for _ in range(n * 2 * 2 * 3)], dtype="uint8").reshape(n, 2, 2, 3))
        self.columns = {k: dict(r=a.ndim, v=self._fractions(a)) for k, a in self.arrays.items()}

    def _fractions(self, a):
        if a.ndim:
            return [self._fractions(x) for x in a]
        v = float(a)
        if v != v:
            return [0, 0]
        from fractions import Fraction
        f = Fraction(v)
        return [f.numerator, f.denominator]

    # every maker returns (text, tree)
    def number(self, value=None):
        r = self.rng
        n, d = value or r.choice([(r.randint(-3, 4), 1), (r.randint(-6, 6), 4), (r.randint(-3, 3), 2)])
        from fractions import Fraction
        f = Fraction(n, d)
        if f < 0:
            return f"(-{abs(f.numerator) / f.denominator if f.denominator > 1 else abs(f.numerator)})", dict(k="un", op="-", of=dict(k="num", n=abs(f.numerator), d=f.denominator))
        return (str(f.numerator) if f.denominator == 1 else str(f.numerator / f.denominator)), dict(k="num", n=f.numerator, d=f.denominator)

    def slice(self, extent):
        r = self.rng
        part = lambda: [] if r.random() < 0.5 else [r.randint(-extent - 2, extent + 2)]
        lo, hi, st = part(), part(), ([] if r.random() < 0.6 else [r.choice([1, 2, -1, -1, -2])])
        text = ":".join("" if not p else str(p[0]) for p in (lo, hi)) + (":" + str(st[0]) if st else "")
        return text, dict(s="slice", lo=lo, hi=hi, st=st)

    def items(self, shape, to):
        """An index that leaves `to` axes (kept ones whole or reordered), rows usually whole."""
        r = self.rng
        drop = set(r.sample(range(1, len(shape)), len(shape) - to)) if r.random() < 0.93 or len(shape) == to else set(r.sample(range(len(shape)), len(shape) - to))
        out = []
        for axis, extent in enumerate(shape):
            if axis in drop:
                i = r.randint(-extent, extent - 1) if r.random() < 0.97 else extent + 1
                out.append((str(i), dict(s="int", v=i)))
            elif axis == 0:
                out.append((":", dict(s="slice", lo=[], hi=[], st=[])) if r.random() < 0.9 else ("::-1", dict(s="slice", lo=[], hi=[], st=[-1])) if r.random() < 0.6 else self.slice(extent))
            else:
                out.append((":", dict(s="slice", lo=[], hi=[], st=[])))
        if r.random() < 0.25:  # a run of whole axes as an ellipsis
            runs = [(i, j) for i in range(len(out) + 1) for j in range(i, len(out) + 1) if all(out[k][0] == ":" for k in range(i, j))]
            i, j = r.choice(runs)
            out[i:j] = [("...", dict(s="dots"))]
        return ", ".join(t for t, _ in out), [i for _, i in out]

    def column(self, to=1, names=("gf", "vt")):
        r = self.rng
        name = r.choice(names)
        text, tree = name, dict(k="col", name=name)
        shape = list(self.arrays[name].shape)
        if r.random() < 0.3:  # reorder an axis first
            axis = r.randint(1, len(shape) - 1)
            if r.random() < 0.5:
                at = [r.randint(-shape[axis], shape[axis] - 1) for _ in range(r.randint(1, 4))]
                piece, item, size = str(at), dict(s="list", v=at), len(at)
            else:
                piece, item = self.slice(shape[axis])
                size = len(range(shape[axis])[slice(*[(p[0] if p else None) for p in (item["lo"], item["hi"], item["st"])])])
            if size:
                text += "[" + ":, " * axis + piece + "]"
                tree = dict(k="at", of=tree, index=[dict(s="slice", lo=[], hi=[], st=[])] * axis + [item])
                shape[axis] = size
        if len(shape) > to:
            piece, items = self.items(shape, to)
            text, tree = f"{text}[{piece}]", dict(k="at", of=tree, index=items)
        return text, tree

    def numeric(self, depth):
        r = self.rng
        if depth == 0 or r.random() < 0.4:
            return self.column()
        kind = r.choice(["bin", "bin", "un", "abs", "power", "by", "scalar"])
        a, ta = self.numeric(depth - 1)
        if kind == "un":
            op = r.choice("+-")
            return f"({op}{a})", dict(k="un", op=op, of=ta)
        if kind == "abs":
            return f"{r.choice(['', 'np.'])}abs({a})", dict(k="call", f="abs", args=[ta])
        if kind == "power":
            a, ta = self.column(names=("gf",))
            n, _ = r.randint(0, 3), None
            return f"({a}**{n})", dict(k="bin", op="**", l=ta, r=dict(k="num", n=n, d=1))
        if kind == "by":
            op = r.choice(["/", "//", "%"])
            b, tb = self.number((r.choice([-1, 1]) * r.choice([1, 2, 4]), 1) if op == "/" else r.choice([(3, 1), (2, 1), (-2, 1), (1, 2), (-3, 1)]))
            return f"({a} {op} {b})", dict(k="bin", op=op, l=ta, r=tb)
        b, tb = self.number() if kind == "scalar" else self.numeric(depth - 1)
        op = r.choice(["+", "-", "+", "-", "*"] if depth < 2 else ["+", "-"])
        if r.random() < 0.5:
            a, ta, b, tb = b, tb, a, ta
        return f"({a} {op} {b})", dict(k="bin", op=op, l=ta, r=tb)

    def truth(self, depth):
        r = self.rng
        kind = r.choice(["cmp", "cmp", "cmp"] + (["bits", "bits", "not", "logic", "logic", "equal", "again"] if depth else []) + ["nan", "board"])
        if kind == "cmp":
            n = r.choice([1, 1, 1, 2, 3])
            args = [self.numeric(min(depth, 2) if n == 1 else 0) if r.random() < 0.6 else self.number() for _ in range(n + 1)]
            if r.random() < 0.9:
                args[r.randint(0, n)] = self.numeric(0)
            ops = [r.choice(ORDER) for _ in range(n)]
            return "(" + args[0][0] + "".join(f" {o} {a[0]}" for o, a in zip(ops, args[1:])) + ")", dict(k="cmp", ops=ops, args=[a[1] for a in args])
        if kind == "board":
            a, ta = self.column(names=("bf",))
            op = r.choice(ORDER)
            v = r.randint(0, 2)
            return f"({a} {op} {v})", dict(k="cmp", ops=[op], args=[ta, dict(k="num", n=v, d=1)])
        if kind == "nan":
            f = r.choice(["isnan", "isfinite"])
            a, ta = self.numeric(min(depth, 1))
            return f"{r.choice(['', 'np.'])}{f}({a})", dict(k="call", f=f, args=[ta])
        if kind == "again":  # a table of truths, one column of it
            a, ta = self.column(to=2)
            b, tb = self.number()
            op = r.choice(ORDER)
            i = r.choice([0, -1])
            return f"({a} {op} {b})[:, {i}]", dict(k="at", of=dict(k="cmp", ops=[op], args=[ta, tb]), index=[dict(s="slice", lo=[], hi=[], st=[]), dict(s="int", v=i)])
        a, ta = self.truth(depth - 1)
        if kind == "not":
            return f"(~{a})", dict(k="un", op="~", of=ta)
        b, tb = self.truth(depth - 1)
        if kind == "bits":
            op = r.choice("&|^")
            return f"({a} {op} {b})", dict(k="bin", op=op, l=ta, r=tb)
        if kind == "equal":
            op = r.choice(["==", "!="])
            return f"({a} {op} {b})", dict(k="cmp", ops=[op], args=[ta, tb])
        f = r.choice(["logical_and", "logical_or", "logical_not"])
        x, tx = (a, ta) if r.random() < 0.6 else self.numeric(min(depth, 1))
        args = [(x, tx)] if f == "logical_not" else [(x, tx), (b, tb)]
        extra = r.random()
        if extra < 0.08:
            args.append(self.numeric(0))  # one too many
        elif extra < 0.1:
            args.pop()
        return f"{r.choice(['', 'np.'])}{f}({', '.join(t for t, _ in args)})", dict(k="call", f=f, args=[t for _, t in args])

    def expression(self):
        r = self.rng
        case = r.random()
        if case < 0.2:
            bad = dict(k="bad")
            if r.random() < 0.5:
                b = r.choice(BAD_NUMBERS).replace("MARK", self.mark)
                op = r.choice(ORDER)
                bare = not any(b.startswith(c) for c in "-n") and "+" not in b and "if" not in b
                part = (f"({b if bare else '(' + b + ')'} {op} 1)", dict(k="cmp", ops=[op], args=[bad, dict(k="num", n=1, d=1)]))
            else:
                part = (r.choice(BAD_TRUTHS), bad)
            if r.random() < 0.5:
                return part
            a, ta = self.truth(1)
            pair = [(a, ta), part]
            r.shuffle(pair)
            return f"({pair[0][0]} {'&'} {pair[1][0]})", dict(k="bin", op="&", l=pair[0][1], r=pair[1][1])
        if case < 0.26:  # not a truth per row
            table, tree = self.column(to=2)
            return r.choice([(f"({table} > 0)", dict(k="cmp", ops=[">"], args=[tree, dict(k="num", n=0, d=1)])), self.numeric(1), (table, tree), self.number(), ("True", dict(k="bool", b=True)), ("(2 > 1)", dict(k="cmp", ops=[">"], args=[dict(k="num", n=2, d=1), dict(k="num", n=1, d=1)]))])
        if case < 0.32:  # an output array in disguise
            f = r.choice(["abs", "isnan", "isfinite", "logical_not", "logical_and"])
            args = [self.numeric(0) for _ in range(3 if f == "logical_and" else 2)]
            text = f"({r.choice(['', 'np.'])}{f}({', '.join(t for t, _ in args)}) != 7)"
            return text, dict(k="cmp", ops=["!="], args=[dict(k="call", f=f, args=[t for _, t in args]), dict(k="num", n=7, d=1)])
        if case < 0.36:
            text, tree = self.truth(1)
            return f"({text} & True)", dict(k="bin", op="&", l=tree, r=dict(k="bool", b=True))
        return self.truth(r.choice([0, 1, 2, 2, 3]))


def small(text):
    """Within the stated limits of a filter: 4096 bytes, 128 syntax nodes, 16 deep."""
    try:
        tree = ast.parse(text, mode="eval")
    except SyntaxError:
        return True
    depth = lambda node: 1 + max([depth(c) for c in ast.iter_child_nodes(node)], default=0)
    return len(text.encode()) <= 4096 and len(list(ast.walk(tree))) <= 128 and depth(tree) <= 16


def body(check):
    env.activate(check.tmp)
    import warnings
    warnings.simplefilter("ignore")
    from dataset.filter import evaluate_filter_condition
    rng = check.rng
    cases, texts = [], []
    answers = [0, 0]
    home = os.getcwd()
    os.chdir(check.tmp)
    for number in range(700 if check.thorough else 50):
        mark = os.path.join(check.tmp, f"touched{number}")
        maker = Maker(rng, mark)
        asked, told = [], []
        for _ in range(80 if check.thorough else 50):
            text, tree = maker.expression()
            if not small(text):
                tree = dict(k="bad")
            arrays = {k: a.copy() for k, a in maker.arrays.items()}
            rows, refused = [], False
            try:
                got = evaluate_filter_condition(text, arrays)
                rows = [bool(v) for v in got]
            except Exception:
                refused = True
            touched = any(arrays[k].tobytes() != a.tobytes() for k, a in maker.arrays.items()) or os.path.exists(mark)
            answers[refused] += 1
            asked.append(dict(tree=tree, refused=refused, rows=rows, touched=touched))
            told.append(text)
        cases.append(dict(n=maker.n, columns=maker.columns, asked=asked))
        texts.append((told, maker))
    os.chdir(home)

    def on_error(item):
        told, maker = texts[item["case"] - 1]
        ask = cases[item["case"] - 1]["asked"][item["step"] - 1]
        text = told[item["step"] - 1]
        check.violation(item["clause"], f"{text[:200]}", dict(expression=text, observed={k: v for k, v in ask.items() if k != "tree"}, tree=ask["tree"], data={k: a.tolist() for k, a in maker.arrays.items()}))
    traces.validate(check, "FilterTrace", cases, label="filters", on_error=on_error, lengths=[len(c["asked"]) + 1 for c in cases], timeout=850)
    check.note("expressions evaluated", answers[0])
    check.note("expressions refused", answers[1])
    check.sample(dict(expressions=texts[0][0][:8]))


report.main(PID, body)
