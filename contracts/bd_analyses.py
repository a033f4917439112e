"""Bounded checks of the analyses: generated expressions against Python's own
evaluation and generated programs against their own executions."""
import ast
import itertools
import warnings
import astroid
from astroid import nodes
from pyded.job import Bounded, record
from edulint.linting.analyses import utils as U
from edulint.linting.analyses import z3_analysis as Z
from edulint.linting.analyses.cfg.visitor import CFGVisitor
from edulint.linting.analyses.patcher import run_analyses

warnings.simplefilter("ignore", SyntaxWarning)

# ------------------------------------------------------------ A01: constants

BIN = ["+", "-", "*", "/", "//", "%", "**", "<<", ">>", "&", "|", "^"]
CMP = ["==", "!=", "<", "<=", ">", ">="]
LEAF = ["0", "1", "2", "3", "7", "10", "0.5", "2.0", "0.0", "1e308", "True", "False", "None", "'a'", "''", "'%d'", "b'x'", "1j", "...", "x", "[]", "(1, 2)", "{}", "f()", "64", "1000"]


class Big(Exception):
    pass


def const_expr(r, d):
    k = r.random()
    if d <= 0 or k < 0.18:
        return r.choice(LEAF) if r.random() < 0.45 else r.choice(["0", "1", "2", "3", "5", "0.5", "True"])
    if k < 0.33:
        return f"({r.choice(['-', '+', 'not ', '~'])}{const_expr(r, d - 1)})"
    if k < 0.7:
        return f"({const_expr(r, d - 1)} {r.choice(BIN)} {const_expr(r, d - 1)})"
    if k < 0.85:
        return f"({const_expr(r, d - 1)} {r.choice(CMP)} {const_expr(r, d - 1)})"
    if k < 0.88:
        return f"({const_expr(r, d - 1)} < {const_expr(r, d - 1)} < {const_expr(r, d - 1)})"
    if k < 0.9:
        return f"({r.choice(['None', 'True', 'False'])} {r.choice(['is', 'is not'])} {r.choice(['None', 'True', 'False'])})"
    op = r.choice([" and ", " or "])
    return "(" + op.join(const_expr(r, d - 1) for _ in range(r.randint(2, 3))) + ")"


def small(n):
    """evaluation refusing operations with huge results"""
    if isinstance(n, ast.BinOp):
        a, b = small(n.left), small(n.right)
        if isinstance(n.op, ast.Pow) and isinstance(a, int) and isinstance(b, int) and (abs(b) > 70 or abs(a) > 10 ** 30):
            raise Big()
        if isinstance(n.op, ast.LShift) and isinstance(b, int) and (b > 2000):
            raise Big()
        if isinstance(n.op, ast.Mult) and any(isinstance(x, (str, bytes, list, tuple)) for x in (a, b)) and any(isinstance(x, int) and x > 1000 for x in (a, b)):
            raise Big()
    else:
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                try:
                    small(c)
                except Big:
                    raise
                except Exception:
                    pass
    if isinstance(n, (ast.Name, ast.Call)):
        return None
    return eval(compile(ast.Expression(n), "e", "eval"), {"__builtins__": {}})


def constants(r, k):
    src = const_expr(r, r.randint(1, 4))
    tree = ast.parse(src, mode="eval").body
    try:
        small(tree)
    except Big:
        return None
    except Exception:
        pass
    try:
        val, fails = eval(src, {"__builtins__": {}}), False
    except Exception as e:
        val, fails = None, True
    ctx = {"expression": src, "Python": "fails" if fails else repr(val)}
    record(ctx)
    node = astroid.parse("x = " + src).body[0].value
    try:
        got = U.get_const_value(node)
        kinds = {"is_number": U.is_number(node), "is_integer": U.is_integer(node), "is_float": U.is_float(node)}
    except Exception as e:
        return {"what": f"{type(e).__name__}: {e}", **ctx}
    if got is not None and (fails or type(got) is not type(val) or repr(got) != repr(val)):
        return {"got": repr(got), **ctx}
    ok = not fails and not isinstance(val, bool)
    real = {"is_number": ok and isinstance(val, (int, float)), "is_integer": ok and isinstance(val, int), "is_float": ok and isinstance(val, float)}
    for f in kinds:
        if kinds[f] and not real[f]:
            return {"function": f, "got": True, **ctx}


Bounded("constant expressions", ["A01"], constants, n=(12000, 120000), secs=(20, 200), text="expressions of depth up to four over about thirty literals, compared with Python's eval")

# ------------------------------------------------------------ conditions

NAMES = ["a", "b", "c"]


def arith(r, d, wild=False):
    k = r.random()
    if d <= 0 or k < 0.45:
        return r.choice(NAMES) if r.random() < 0.65 else r.choice(["0", "1", "2", "3", "-1", "5"] + (["0.5", "2.0", "True", "1e400", "(10 ** 400)"] if wild else []))
    if k < 0.5:
        return f"(-{arith(r, d - 1, wild)})"
    if k < 0.55:
        return f"abs({arith(r, d - 1, wild)})"
    if k < 0.78:
        return f"({arith(r, d - 1, wild)} {r.choice(['+', '-', '*'])} {arith(r, d - 1, wild)})"
    if wild and k < 0.82:
        return f"({arith(r, d - 1, wild)} {r.choice(['&', '|', '^', '<<', '**', '/', '%', '//'])} {arith(r, d - 1, wild)})"
    if wild and k < 0.86:
        return f"({arith(r, d - 1, wild)} / {r.choice(['2', '4', '2.0', '0.5', '(-2)', '0', '(10 ** 400)'])})"
    return f"({arith(r, d - 1, wild)} {r.choice(['%', '//', '%'])} {r.choice(['2', '2', '3', '1', '(-2)', '(-3)', '(1 + 1)', '0', '(-1)'] + (['2.0', 'True'] if wild else []))})"


def cond(r, d, wild=False):
    k = r.random()
    if d <= 0 or k < 0.5:
        j = r.random()
        if j < 0.12:
            return arith(r, 1, wild)
        if j < 0.3:
            m = r.choice(['2', '2', '2', '3', '4', '1', '(-2)', '(-3)', 'b'])
            return f"({arith(r, 1, False)} % {m} {r.choice(['==', '!=', '==', '!=', '<', '>', '<=', '>='])} {r.choice(['0', '1', '0', '1', 'a', '2', '(-1)'])})"
        if j < 0.4:
            return f"({arith(r, 1, wild)} {r.choice(CMP)} {arith(r, 1, wild)} {r.choice(CMP)} {arith(r, 1, wild)})"
        if wild and j < 0.44:
            return f"({arith(r, 1)} {r.choice(['in', 'not in'])} (1, 2))"
        if j < 0.46:
            return f"({r.choice(NAMES)} {r.choice(['in', 'not in'])} [0, 1])"
        if j < 0.5 and wild:
            return r.choice(["True", "False", "0", "1", "None", "(a == True)", "((a > 0) == (b > 0))", "((a > 0) + 1)"])
        return f"({arith(r, 2, wild)} {r.choice(CMP)} {arith(r, 2, wild)})"
    if k < 0.65:
        return f"(not {cond(r, d - 1, wild)})"
    op = r.choice([" and ", " or "])
    return "(" + op.join(cond(r, d - 1, wild) for _ in range(r.choice([2, 2, 2, 3]))) + ")"


NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">", "and": "or", "or": "and", "in": "not in", "not in": "in"}
OPS = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.And: ast.Or, ast.Or: ast.And}


def negate(r, n, sloppy):
    """a negation of the condition, with mistakes if sloppy"""
    if r.random() < sloppy * 0.15:
        return n
    if isinstance(n, ast.BoolOp):
        op = n.op if r.random() < sloppy * 0.15 else OPS[type(n.op)]()
        vs = [negate(r, v, sloppy) for v in n.values]
        if r.random() < sloppy * 0.15:
            vs = vs[:-1] if len(vs) > 2 else vs + [vs[0]]
        return ast.BoolOp(op, vs)
    if isinstance(n, ast.Compare):
        if len(n.ops) == 1 and isinstance(n.left, ast.BinOp) and isinstance(n.left.op, ast.Mod) and isinstance(n.comparators[0], ast.Constant) and r.random() < 0.4:
            v = n.comparators[0].value
            w = r.choice([0, 1, 2, 1 - v if isinstance(v, int) else 0])
            side = (n.left, ast.Constant(w))
            if r.random() < 0.3:
                side = side[::-1]
            return ast.Compare(side[0], [n.ops[0] if r.random() < 0.8 else r.choice([ast.Eq(), ast.NotEq()])], [side[1]])
        ops = [o if r.random() < sloppy * 0.1 else OPS[type(o)]() for o in n.ops]
        left, comps = n.left, list(n.comparators)
        if r.random() < sloppy * 0.15:
            left, comps[0] = comps[0], left
        return ast.Compare(left, ops, comps)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) and r.random() < 0.7:
        return n.operand
    return ast.UnaryOp(ast.Not(), n)


GRID = [dict(zip(NAMES, v)) for v in itertools.product([-3, -2, -1, 0, 1, 2, 3], [-3, -1, 0, 1, 2], [-2, 0, 1, 3])] + [{"a": 5, "b": 7, "c": -7}, {"a": 100, "b": -100, "c": 4}]
ENV = {"__builtins__": {}, "abs": abs}


def outcomes(src):
    code = compile(src, "c", "eval")
    res = []
    for g in GRID:
        try:
            res.append(bool(eval(code, ENV, dict(g))))
        except Exception:
            res.append(None)
    return res


def negations(r, k):
    t1 = ast.parse(cond(r, r.randint(0, 2)), mode="eval").body
    j = r.random()
    if j < 0.75:
        t2 = negate(r, t1, r.choice([0, 1, 1, 2]))
    else:
        t2 = ast.parse(cond(r, r.randint(0, 1)), mode="eval").body
    for _ in range(r.choice([0, 0, 1, 2])):
        t1 = ast.UnaryOp(ast.Not(), t1)
    if r.random() < 0.3:
        t1, t2 = t2, t1
    s1, s2 = ast.unparse(ast.fix_missing_locations(t1)), ast.unparse(ast.fix_missing_locations(t2))
    ctx = {"first": s1, "second": s2}
    record(ctx)
    n1, n2 = (astroid.parse("x = " + s).body[0].value for s in (s1, s2))
    try:
        got = U.is_negation(n1, n2, negated_rt=False), U.is_negation(n1, n2, negated_rt=True)
    except Exception as e:
        return {"what": f"{type(e).__name__}: {e}", **ctx}
    if not any(got):
        return None
    o1, o2 = outcomes(s1), outcomes(s2)
    for g, x, y in zip(GRID, o1, o2):
        if x is None or y is None:
            continue
        if got[0] and x == y:
            return {"called": "negations of each other", "assignment": g, "values": [x, y], **ctx}
        if got[1] and x != y:
            return {"called": "negations of each other once the second one is negated", "assignment": g, "values": [x, y], **ctx}


Bounded("negated conditions", ["A02"], negations, n=(12000, 100000), secs=(25, 250), text="pairs of conditions of depth up to three over three integer variables, compared on about 140 assignments")

# ------------------------------------------------------------ A03: encoding


def condition_node(src):
    mod = astroid.parse("def f():\n" + "".join(f"    {n} = int(input())\n" for n in NAMES) + f"    while {src}:\n        pass\n")
    run_analyses(mod)
    return mod.body[0].body[-1].test


def encoding(r, k):
    import z3
    src = cond(r, r.randint(0, 2), wild=True)
    ctx = {"condition": src}
    record(ctx)
    node = condition_node(src)
    vs = {}
    try:
        ok = Z.initialize_variables(node, vs, False, None, True)
        expr = Z.convert_condition_to_z3_expression(node, vs, None)[0] if ok else None
        sat = Z.sat_condition(node)
    except Exception as e:
        return {"what": f"{type(e).__name__}: {e}", **ctx}
    if ok and expr is None or not ok:
        if sat is not None:
            return {"decided although not encoded": sat, **ctx}
        return None
    want = outcomes(src)
    if sat is False and True in want:
        return {"called": "never true", "assignment": GRID[want.index(True)], **ctx}
    idx = [i for i in range(len(GRID)) if want[i] is not None]
    for i in idx if len(idx) < 40 else r.sample(idx, 40):
        sub = [(v, (z3.IntVal if v.is_int() else z3.RealVal)(GRID[i][n])) for n, v in vs.items() if n in GRID[i]]
        v = z3.simplify(z3.substitute(expr, *sub))
        if not (z3.is_true(v) if want[i] else z3.is_false(v)):
            return {"assignment": GRID[i], "Python": want[i], "encoding": str(v), "encoded": str(expr)[:300], **ctx}


Bounded("encoded conditions", ["A03"], encoding, n=(2500, 25000), secs=(60, 400), text="conditions of depth up to three over three integer variables, compared on up to 40 of about 140 assignments")


def implications(r, k):
    import z3
    s1 = cond(r, 1)
    s2 = cond(r, 1) if r.random() < 0.6 else ast.unparse(ast.fix_missing_locations(negate(r, ast.parse(s1, mode="eval").body, 1)))
    ctx = {"first": s1, "second": s2}
    record(ctx)
    n1, n2 = condition_node(s1), condition_node(s2)
    vs = {}
    try:
        if not (Z.initialize_variables(n1, vs, False, None, True) and Z.initialize_variables(n2, vs, False, None, True)):
            return None
        e1, e2 = (Z.convert_condition_to_z3_expression(n, vs, None)[0] for n in (n1, n2))
        if e1 is None or e2 is None:
            return None
        got = Z.implies(e1, e2), Z.implies(e2, e1), Z.unsatisfiable(z3.And(e1, e2)), Z.first_implied_index(e1, [e2]) == 0, Z.all_implied_indeces(e1, [e2]) == [0]
    except Exception as e:
        return {"what": f"{type(e).__name__}: {e}", **ctx}
    if not any(got):
        return None
    for g, x, y in zip(GRID, outcomes(s1), outcomes(s2)):
        if x is None or y is None:
            continue
        for name, claim, bad in (("the first implies the second", got[0], x and not y), ("the second implies the first", got[1], y and not x), ("never both true", got[2], x and y), ("the first implies the second (first index)", got[3], x and not y),
                                 ("the first implies the second (all indices)", got[4], x and not y)):
            if claim and bad:
                return {"called": name, "assignment": g, "values": [x, y], **ctx}


Bounded("implications", ["A03"], implications, n=(1200, 12000), secs=(40, 400), text="pairs of conditions of depth up to two over three integer variables, compared on about 140 assignments")

# ------------------------------------------------------------ A04: control flow


class Gen:
    def __init__(self, r):
        self.r, self.n = r, 0

    def mark(self):
        self.n += 1
        return self.n

    def test(self):
        r = self.r
        return f"c({self.mark()})" if r.random() < 0.85 else r.choice(["0", "1", "True", "False", "None", "''", "'a'", "not 0", "not True", "()", "x", "0.0"])

    def block(self, d, loop, fn, ind):
        out = []
        for _ in range(self.r.choice([1, 1, 2, 2, 3])):
            out += self.stmt(d, loop, fn, ind)
        return out

    def stmt(self, d, loop, fn, ind):
        r, p = self.r, "    " * ind
        k = r.random()
        if d <= 0 or k < 0.35:
            j = r.random()
            if loop and j < 0.15:
                return [p + "break"]
            if loop and j < 0.3:
                return [p + "continue"]
            if fn and j < 0.38:
                return [p + r.choice(["return", f"return t({self.mark()})"])]
            return [p + r.choice([f"t({self.mark()})", f"x = t({self.mark()})", "pass", f"x += t({self.mark()})"])]
        if k < 0.55:
            out = [p + f"if {self.test()}:"] + self.block(d - 1, loop, fn, ind + 1)
            for _ in range(r.choice([0, 0, 1])):
                out += [p + f"elif {self.test()}:"] + self.block(d - 1, loop, fn, ind + 1)
            if r.random() < 0.5:
                out += [p + "else:"] + self.block(d - 1, loop, fn, ind + 1)
            return out
        if k < 0.68:
            test = self.test()
            out = [p + f"while {test}:"] + ([] if "c(" in test else [p + f"    t({self.mark()})"]) + self.block(d - 1, True, fn, ind + 1)
        elif k < 0.82:
            out = [p + f"for x in r({self.mark()}):"] + self.block(d - 1, True, fn, ind + 1)
        elif k < 0.88:
            return [p + r.choice([f"with m({self.mark()}):", f"with m({self.mark()}) as y, m({self.mark()}):"])] + self.block(d - 1, loop, fn, ind + 1)
        elif k < 0.94:
            out = [p + "try:"] + self.block(d - 1, loop, fn, ind + 1)
            for e in r.sample(["ValueError", "(KeyError, OSError) as e", "LookupError"], r.randint(1, 2)):
                out += [p + f"except {e}:"] + self.block(d - 1, loop, fn, ind + 1)
            if r.random() < 0.3:
                out += [p + "else:"] + self.block(d - 1, loop, fn, ind + 1)
            return out
        elif k < 0.97:
            return [p + f"def g{self.mark()}(a, b=1):"] + self.block(d - 1, False, True, ind + 1)
        else:
            return [p + f"class G{self.mark()}:"] + self.block(d - 1, False, False, ind + 1)
        if r.random() < 0.3:
            out += [p + "else:"] + self.block(d - 1, loop, fn, ind + 1)
        return out


class Stop(BaseException):
    pass


def graph_problems(cfgs):
    for cfg in cfgs:
        seen, todo = set(), [cfg.start]
        while todo:
            b = todo.pop()
            if id(b) in seen:
                continue
            seen.add(id(b))
            for e in b.successors:
                if e.source is not b:
                    return "an outgoing edge starts elsewhere"
                if sum(x is e for x in e.target.predecessors) != 1:
                    return f"an edge is {sum(x is e for x in e.target.predecessors)} times among the incoming edges of its target"
                if e.target.cfg is not cfg:
                    return "an edge leads to another graph"
                todo.append(e.target)
            for e in b.predecessors:
                if e.target is not b:
                    return "an incoming edge ends elsewhere"
                if sum(x is e for x in e.source.successors) != 1:
                    return f"an edge is {sum(x is e for x in e.source.successors)} times among the outgoing edges of its source"
            for i, loc in enumerate(b.locs):
                if loc.block is not b or loc.pos != i or loc.node.cfg_loc is not loc:
                    return "a position does not belong to its block"
        if any((b in cfg.unreachable_blocks) or not b.reachable for b in cfg.get_blocks()):
            return "a block on a path from the start is called unreachable"
        if {id(b) for b in cfg.get_blocks()} != seen or {id(b) for b in cfg.get_blocks_postorder()} != seen:
            return "the iteration over blocks is not complete"


def mark_of(node):
    for c in node.nodes_of_class(nodes.Call, skip_klass=(nodes.FunctionDef, nodes.ClassDef)):
        if isinstance(c.func, nodes.Name) and c.func.name in "tcrm" and isinstance(c.args[0], nodes.Const):
            return c.args[0].value
    return None


def nexts(cfg, block, pos):
    """marks that can come first after the given position"""
    res, seen, todo = set(), set(), [(block, pos)]
    while todo:
        b, p = todo.pop()
        for loc in b.locs[p:]:
            if isinstance(loc.node, (nodes.FunctionDef, nodes.ClassDef, nodes.Arguments)):
                continue
            m = mark_of(loc.node)
            if m is not None:
                res.add(m)
                break
        else:
            if b is cfg.end:
                res.add("end")
            for e in b.successors:
                if id(e.target) not in seen:
                    seen.add(id(e.target))
                    todo.append((e.target, 0))
    return res


def flow(r, k):
    g = Gen(r)
    body = g.block(r.randint(1, 3), False, True, 1)
    src = "x = 0\ndef f():\n    global x\n    x = 0\n" + "\n".join(body) + "\n"
    ctx = {"program": src}
    record(ctx)
    try:
        code = compile(src, "p", "exec")
    except SyntaxError:
        return None
    mod = astroid.parse(src)
    v = CFGVisitor()
    try:
        mod.accept(v)
        bad = graph_problems(v.cfgs.values())
    except Exception as e:
        return {"what": f"{type(e).__name__}: {e}", **ctx}
    if bad:
        return {"what": bad, **ctx}
    fn = mod.body[1]
    cfg = v.cfgs[fn]
    where = {}
    todo = list(fn.body)
    missing = None
    while todo:
        n = todo.pop()
        if isinstance(n, (nodes.FunctionDef, nodes.ClassDef)):
            continue
        parts = [n.test] if isinstance(n, (nodes.If, nodes.While)) else [n.iter] if isinstance(n, nodes.For) else [x for x, _ in n.items] if isinstance(n, nodes.With) else [] if isinstance(n, nodes.Try) else [n]
        for p in parts:
            if not hasattr(p, "cfg_loc"):
                missing = p
            elif mark_of(p) is not None:
                where[mark_of(p)] = p.cfg_loc
        for a in ("body", "orelse"):
            todo += getattr(n, a, []) if not isinstance(n, nodes.Expr) else []
        for h in getattr(n, "handlers", []):
            todo += h.body
    if missing is not None:
        return {"what": "a statement has no place in the graph", "statement": missing.as_string(), **ctx}
    start = nexts(cfg, cfg.start, 0)
    for _ in range(12):
        trace = []

        def t(m):
            trace.append(m)
            if len(trace) > 60:
                raise Stop()
            return 0

        class M:
            def __init__(self, m):
                t(m)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False
        env = {"t": t, "c": lambda m: [t(m), r.random() < 0.5][1], "r": lambda m: [t(m), range(r.randint(0, 2))][1], "m": M}
        exec(code, env)
        try:
            env["f"]()
            trace.append("end")
        except Stop:
            trace = trace[:-1]
        prev = start
        inner = False
        for m in trace:
            if m != "end" and m not in where:
                inner = True  # class bodies run in place
                continue
            if m not in prev:
                return {"what": "an execution leaves the graph", "executed": trace, "at": m, "possible": sorted(map(str, prev)), **ctx}
            if m != "end":
                loc = where[m]
                if loc.block.locs[loc.pos] is not loc:
                    return {"what": "a position does not belong to its block", **ctx}
                prev = nexts(cfg, loc.block, loc.pos + 1)


Bounded("control flow", ["A04"], flow, n=(2500, 25000), secs=(45, 400), text="programs of nesting up to three without executed exceptions, up to twelve random executions each")


def pipeline(r, k):
    g = Gen(r)
    src = "x = 0\n" + "\n".join(g.block(r.randint(1, 3), False, False, 0)) + "\n"
    ctx = {"program": src}
    record(ctx)
    try:
        compile(src, "p", "exec")
    except SyntaxError:
        return None
    mod = astroid.parse(src)
    try:
        run_analyses(mod)
        v = CFGVisitor()
        mod = astroid.parse(src)
        mod.accept(v)
        bad = graph_problems(v.cfgs.values())
    except Exception as e:
        return {"what": f"{type(e).__name__}: {e}", **ctx}
    if bad:
        return {"what": bad, **ctx}


Bounded("control flow of modules", ["A04"], pipeline, n=(1200, 12000), secs=(25, 250), text="modules of nesting up to three")
