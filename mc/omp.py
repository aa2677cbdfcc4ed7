"""Runs the parallel loops of the pythran sources under a controlled scheduler.

The pythran extensions are generated from Python source in which `#omp parallel for` comments mark the parallel loops.
Here that same source (read from /repo at run time) is turned into Python in which the iterations of each marked loop are
generators; they give up control before every statement, and between the read and the write of every update of a shared
variable.  Variables follow the rule pythran's code generation follows: a name that is a parameter, or is assigned outside
the loop, is shared; a name assigned only inside is private; reduction and (first)private clauses are honoured.
A scheduler then explores every interleaving up to a number of preemptions.
"""
import ast
import itertools
import re


class Unsupported(Exception):
    pass


def _pragmas(src):
    """line of the statement -> text of the pragma above it"""
    out = {}
    lines = src.splitlines()
    for i, line in enumerate(lines):
        m = re.match(r"\s*#\s*omp\s+(.*)", line)
        if m and not line.strip().startswith("##"):
            j = i + 1
            while j < len(lines) and (not lines[j].strip() or lines[j].strip().startswith("#")):
                j += 1
            out[j + 1] = m.group(1).strip()
    return out


def _stores(nodes):
    names = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                names.add(x.id)
    return names


def _clause(text, name):
    out = []
    for m in re.finditer(r"(?<![a-z])%s\s*\(([^)]*)\)" % name, text):
        out += [v.strip() for v in m.group(1).split(",")]
    return out


def _parse(code):
    return ast.parse(code).body


class _Body:
    """rewrites the body of a parallel loop"""

    def __init__(self, shared, pragmas):
        self.shared, self.pragmas, self.n = shared, pragmas, 0

    def is_shared(self, target):
        if isinstance(target, ast.Name):
            return target.id in self.shared
        if isinstance(target, (ast.Tuple, ast.List)):
            return any(self.is_shared(e) for e in target.elts)
        return True         # an element of some array: may be anybody's

    def block(self, stmts):
        out = []
        for s in stmts:
            out += self.stmt(s)
        return out

    def stmt(self, s):
        pause = _parse("yield")
        if re.match(r"(critical|atomic)", self.pragmas.get(s.lineno, "")):
            return pause + [s]
        if isinstance(s, ast.Assert):
            return []
        if isinstance(s, ast.Assign) and any(self.is_shared(t) for t in s.targets):
            self.n += 1
            tmp = "__t%d" % self.n
            a = ast.Assign([ast.Name(tmp, ast.Store())], s.value)
            b = ast.Assign(s.targets, ast.Name(tmp, ast.Load()))
            return pause + [a] + _parse("yield") + [b]
        if isinstance(s, ast.AugAssign) and self.is_shared(s.target):
            self.n += 1
            tmp = "__t%d" % self.n
            load = ast.parse(ast.unparse(s.target), mode="eval").body
            a = ast.Assign([ast.Name(tmp, ast.Store())], ast.BinOp(load, s.op, s.value))
            b = ast.Assign([s.target], ast.Name(tmp, ast.Load()))
            return pause + [a] + _parse("yield") + [b]
        if isinstance(s, (ast.For, ast.While, ast.If)):
            s.body = self.block(s.body)
            s.orelse = self.block(s.orelse) if s.orelse else []
            if isinstance(s, ast.For) and self.is_shared(s.target):
                raise Unsupported("shared loop variable of an inner loop")
            return pause + [s]
        if isinstance(s, ast.Return):
            raise Unsupported("return inside a parallel loop")
        return pause + [s]


class _Rewrite(ast.NodeTransformer):
    def __init__(self, pragmas):
        self.pragmas, self.fn, self.loops, self.k = pragmas, None, [], 0

    def visit_FunctionDef(self, node):
        outer, self.fn = self.fn, node
        node.body = [x for x in node.body]
        self.generic_visit(node)
        self.fn = outer
        return node

    def visit_Assert(self, node):
        return ast.Pass()

    def visit_For(self, node):
        text = self.pragmas.get(node.lineno, "")
        if not re.match(r"parallel\s+for|for", text):
            self.generic_visit(node)
            return node
        if self.fn is None:
            raise Unsupported("parallel loop outside of a function")
        self.k += 1
        depth = int((_clause(text, "collapse") or ["1"])[0])
        loops, inner = [node], node
        for _ in range(depth - 1):
            if len(inner.body) != 1 or not isinstance(inner.body[0], ast.For):
                raise Unsupported("collapse of loops that are not perfectly nested")
            inner = inner.body[0]
            loops.append(inner)
        targets = [ast.unparse(l.target) for l in loops]
        written = _stores(inner.body)
        private = set(_clause(text, "private")) | set(_clause(text, "firstprivate")) | set(_clause(text, "lastprivate"))
        red = []
        for c in re.finditer(r"reduction\s*\(\s*([^:]+):([^)]*)\)", text):
            if c.group(1).strip() != "+":
                raise Unsupported("reduction " + c.group(1))
            red += [v.strip() for v in c.group(2).split(",")]
        inside = {id(x) for x in ast.walk(node)}
        args = {a.arg for a in self.fn.args.args}
        outside = args | {x.id for x in ast.walk(self.fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)
                          and id(x) not in inside}
        shared = (outside & written) - private - set(red)
        shared_targets = [t for t in targets if t in outside]
        if shared_targets and not all(re.fullmatch(r"\w+", t) for t in targets):
            raise Unsupported("loop target")
        name = "__loop%d" % self.k
        body = _Body(shared, self.pragmas).block(inner.body)
        head = []
        if shared:
            head += _parse("nonlocal " + ", ".join(sorted(shared))) if False else []
        fn = _parse("def %s(__it):\n    pass" % name)[0]
        fn.body = ([ast.Nonlocal(sorted(shared))] if shared else []) + _parse("%s = __it" % ("(" + ", ".join(targets) + ",)")) \
            + [s for r in red for s in _parse("%s = 0" % r)] + _parse("for __once in (0,):\n    pass") \
            + _parse("return (%s,)" % ", ".join(red) if red else "return ()")
        once = [s for s in fn.body if isinstance(s, ast.For)][0]
        once.body = body + _parse("yield")
        gens = " ".join("for %s in %s" % (t, ast.unparse(l.iter)) for t, l in zip(targets, loops))
        run = _parse("__res = __run(%r, %s, [(%s,) %s])" % (self.fn.name, name, ", ".join(targets), gens))
        post = [s for i, r in enumerate(red) for s in _parse("%s = %s + sum(x[%d] for x in __res)" % (r, r, i))]
        self.loops.append((self.fn.name, sorted(shared), red))
        return [fn] + run + post


class Scheduler:
    """runs the iterations according to a list of choices; extends it by running the current iteration on"""

    def __init__(self, choices):
        self.choices = list(choices)
        self.trace = []             # (index chosen, runnable indices, index that ran before)
        self.total = 0

    def run(self, fname, body, items):
        gens = [body(i) for i in items]
        res = [None] * len(gens)
        live = list(range(len(gens)))
        cur = None
        order = []
        while live:
            k = len(self.trace)
            if k < len(self.choices):
                pick = self.choices[k]
            else:
                pick = cur if cur in live else live[0]
            self.trace.append((pick, tuple(live), cur))
            cur = pick
            try:
                next(gens[pick])
            except StopIteration as e:
                res[pick] = e.value
                order.append(pick)
                live.remove(pick)
        self.total += len(items)
        return [res[i] for i in order]


class Program:
    """the functions of one pythran source, with their parallel loops under our control"""

    def __init__(self, path):
        src = open(path).read()
        tree = ast.parse(src)
        rw = _Rewrite(_pragmas(src))
        tree = rw.visit(tree)
        ast.fix_missing_locations(tree)
        self.loops = rw.loops
        self.code = compile(tree, path, "exec")
        self.current = None
        self.ns = {"__run": lambda *a: self.current.run(*a), "__name__": "omp_model"}
        exec(self.code, self.ns)

    def functions(self):
        return sorted({l[0] for l in self.loops})

    def call(self, name, args, choices=()):
        self.current = Scheduler(choices)
        out = self.ns[name](*args)
        return out, self.current.trace


def schedules(program, name, make_args, bound, limit=None):
    """every interleaving of the parallel iterations with at most `bound` preemptions; yields (choices, result)"""
    stack = [((), 0)]
    n = 0
    while stack:
        prefix, used = stack.pop()
        args = make_args()
        out, trace = program.call(name, args, prefix)
        yield prefix, out, args, len(trace)
        n += 1
        if limit and n >= limit:
            return
        for k in range(len(trace) - 1, len(prefix) - 1, -1):
            pick, live, before = trace[k]
            for alt in live:
                if alt == pick:
                    continue
                cost = 1 if before in live else 0
                # choosing among the others is free when the running iteration has ended (or none has started)
                pre = used + cost
                if pre <= bound:
                    stack.append((tuple(t[0] for t in trace[:k]) + (alt,), pre))
