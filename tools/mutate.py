#!/usr/bin/env python3
"""Mechanical changes to the source, for finding what the checks do not see (a development tool, no check uses it).

mutate.py gen OUT.jsonl            list the changes (file, offsets, replacement)
mutate.py test IN.jsonl OUT.jsonl  keep those that pass the repository's stable tests
mutate.py check IN.jsonl OUT.jsonl which check reports each of them (from copies; quick tier, scaled down)
"""
import ast, json, multiprocessing, os, random, shutil, subprocess, sys

REPO = os.environ.get("MUT_REPO", "/repo")
FILES = ["_base", "_client", "_clixml_shell", "_command", "_crypto", "_events", "_host", "_payload", "_pipeline", "_server",
         "types/_base", "types/_collection", "types/_complex", "types/_enum", "types/_host", "types/_primitive",
         "types/_psrp", "types/_serializer"]
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in",
       ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Mod: "+", ast.LShift: ">>", ast.RShift: "<<",
       ast.BitOr: "&", ast.BitAnd: "|", ast.BitXor: "|"}


class Gen(ast.NodeVisitor):
    def __init__(self, path):
        self.path = path
        self.text = open(os.path.join(REPO, path), encoding="utf-8").read()
        self.raw = self.text.encode()
        self.off = [0]
        for l in self.raw.splitlines(True):
            self.off.append(self.off[-1] + len(l))
        self.out = []
        self.skip = 0

    def pos(self, n, end=False):
        return self.off[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    def src(self, n):
        return self.raw[self.pos(n):self.pos(n, True)].decode()

    def add(self, kind, a, b, new, line):
        self.out.append({"file": self.path, "a": a, "b": b, "new": new, "kind": kind, "line": line,
                         "old": self.raw[a:b].decode()[:200]})

    def rep(self, kind, n, new):
        self.add(kind, self.pos(n), self.pos(n, True), new, n.lineno)

    def visit_FunctionDef(self, n):
        if n.name in ("__repr__",):
            return
        for d in n.args.defaults + n.args.kw_defaults:
            if d is not None:
                self.visit(d)
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            body = body[1:]
        for s in body:
            self.visit(s)

    def visit_ClassDef(self, n):
        for d in n.decorator_list:
            self.visit(d)
        for s in n.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.visit(s)

    def visit_Module(self, n):
        for s in n.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.visit(s)

    def visit_Raise(self, n):
        self.rep("no raise", n, "pass")

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_Import(self, n):
        pass

    visit_ImportFrom = visit_Import

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call):
            self.rep("no statement", n, "pass")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if any(isinstance(x, (ast.Attribute, ast.Subscript)) for x in n.targets):
            self.rep("no statement", n, "pass")
        self.visit(n.value)

    def visit_AugAssign(self, n):
        self.rep("no statement", n, "pass")
        if type(n.op) in BIN:
            self.visit(n.value)

    def visit_Delete(self, n):
        self.rep("no statement", n, "pass")

    def visit_Continue(self, n):
        self.rep("no statement", n, "pass")

    def visit_Break(self, n):
        self.rep("no statement", n, "pass")

    def visit_Return(self, n):
        if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            self.rep("return None", n, "return None")
            self.visit(n.value)

    def visit_If(self, n):
        self.rep("if True", n.test, "True")
        self.rep("if False", n.test, "False")
        self.generic_visit(n)

    def visit_While(self, n):
        self.visit(n.test)
        for s in n.body:
            self.visit(s)

    def visit_IfExp(self, n):
        self.rep("first", n, "(" + self.src(n.body) + ")")
        self.rep("second", n, "(" + self.src(n.orelse) + ")")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for i in range(len(n.values)):
            rest = [self.src(v) for j, v in enumerate(n.values) if j != i]
            self.rep("drop operand", n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(rest) + ")")
        vals = ["(%s)" % self.src(v) for v in n.values]
        self.rep("and/or", n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join(vals) + ")")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            self.rep("no unary", n, "(" + self.src(n.operand) + ")")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            op = CMP[type(n.ops[0])]
            self.rep("compare", n, "%s %s %s" % (self.src(n.left), op, self.src(n.comparators[0])))
            if type(n.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                self.rep("compare", n, "%s == %s" % (self.src(n.left), self.src(n.comparators[0])))
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            self.rep("operator", n, "%s %s %s" % (self.src(n.left), BIN[type(n.op)], self.src(n.right)))
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.rep("constant", n, str(not v))
        elif isinstance(v, int):
            self.rep("constant", n, str(v + 1))
            if v > 1:
                self.rep("constant", n, str(v - 1))
        elif isinstance(v, str) and v and self.raw[self.pos(n):self.pos(n) + 1] in b"\"'":
            self.rep("text", n, repr(v + "x"))
            if len(v) > 1:
                self.rep("text", n, repr(v[:-1]))
        elif isinstance(v, bytes):
            self.rep("text", n, repr(v + b"x"))

    def visit_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                self.visit(v.value)

    def visit_Call(self, n):
        f = self.src(n.func)
        if f in ("typing.cast", "typing.TypeVar", "typing.NamedTuple", "warnings.warn", "log.debug"):
            return
        for k in n.keywords:
            if k.arg:
                a = self.pos(k)
                b = self.pos(k, True)
                while self.raw[b:b + 1] in b" \n":
                    b += 1
                if self.raw[b:b + 1] == b",":
                    b += 1
                    self.add("no argument", a, b, "", k.lineno if hasattr(k, "lineno") else n.lineno)
                else:
                    while self.raw[a - 1:a] in (b" ", b"\n"):
                        a -= 1
                    if self.raw[a - 1:a] == b",":
                        a -= 1
                    self.add("no argument", a, b, "", n.lineno)
        if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args[:2]) and f not in ("isinstance", "super", "setattr"):
            a, b = n.args[:2]
            self.add("swapped", self.pos(a), self.pos(b, True), self.src(b) + ", " + self.src(a), n.lineno)
        if len(n.args) == 1 and isinstance(n.func, ast.Attribute) and not n.keywords and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)):
            pass
        self.generic_visit(n)

    def visit_List(self, n):
        self.elements(n)

    visit_Tuple = visit_Set = visit_List

    def elements(self, n):
        if isinstance(getattr(n, "ctx", None), ast.Store) or len(n.elts) > 12:
            self.generic_visit(n)
            return
        if len(n.elts) > 1:
            for i, e in enumerate(n.elts):
                rest = [self.src(x) for j, x in enumerate(n.elts) if j != i]
                o, c = {"List": "[]", "Tuple": "()", "Set": "{}"}[type(n).__name__]
                self.rep("no element", n, o + ", ".join(rest) + ("," if len(rest) == 1 and o == "(" else "") + c)
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if self.src(n.value).startswith("typing"):
            return
        self.generic_visit(n)


def gen(out):
    res = []
    for f in FILES:
        p = "src/psrpcore/%s.py" % f
        g = Gen(p)
        g.visit(ast.parse(g.text))
        seen = set()
        for m in g.out:
            k = (m["a"], m["b"], m["new"])
            if k in seen:
                continue
            seen.add(k)
            s = (g.raw[:m["a"]] + m["new"].encode() + g.raw[m["b"]:]).decode()
            try:
                ast.parse(s)
            except SyntaxError:
                continue
            res.append(m)
    for i, m in enumerate(res):
        m["id"] = i
    with open(out, "w") as fh:
        for m in res:
            fh.write(json.dumps(m) + "\n")
    print(len(res))


def apply(m, root):
    p = os.path.join(root, m["file"])
    raw = open(os.path.join(REPO, m["file"]), "rb").read()
    open(p, "wb").write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])


def restore(m, root):
    shutil.copyfile(os.path.join(REPO, m["file"]), os.path.join(root, m["file"]))


ROOT = None


def init():
    global ROOT
    ROOT = "/tmp/mut/w%d" % os.getpid()
    shutil.copytree(REPO, ROOT, ignore=shutil.ignore_patterns(".git", "build"))


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", PYTHONHASHSEED="0",
           LANG="C.UTF-8", LC_ALL="C.UTF-8")


def one_test(m):
    apply(m, ROOT)
    # (compiled files of everything but the code under test may be kept)
    shutil.rmtree(ROOT + "-pyc" + ROOT + "/src", ignore_errors=True)
    env = {k: v for k, v in ENV.items() if k != "PYTHONDONTWRITEBYTECODE"}
    env.update(PYTHONPYCACHEPREFIX=ROOT + "-pyc", PYTHONPATH=ROOT + "/src")
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--no-cov",
                            "--timeout=60"] + DESEL, cwd=ROOT, env=env,
                           capture_output=True, text=True, timeout=200)
        ok = r.returncode == 0
    except subprocess.TimeoutExpired:
        ok = False
    restore(m, ROOT)
    return m if ok else None


DESEL = []


def deselect():
    base = json.load(open("/tmp/o.json"))
    out = []
    for n in base["failed"]:
        mod, name = n.split("::", 1)
        out += ["--deselect", mod.replace(".", "/") + ".py::" + name]
    return out


ORDER = {
    "_base": "P24 P11 P01 P09 P03 P22 P17 P18 P02", "_client": "P09 P10 P12 P13 P22 P15 P17 P11 P08",
    "_clixml_shell": "P19", "_command": "P15 P11", "_crypto": "P17", "_events": "P16 P08 P09 P12 P13 P14 P01 P22",
    "_host": "P14 P13", "_payload": "P02 P01 P03", "_pipeline": "P10 P16 P15 P13 P11", "_server": "P16 P09 P10 P12 P13 P22 P17 P11 P08",
    "types/_base": "P21 P06 P07 P05", "types/_collection": "P06 P21 P07", "types/_complex": "P16 P23 P06 P14 P15 P08 P07",
    "types/_enum": "P06 P20 P05", "types/_host": "P14 P08 P06", "types/_primitive": "P20 P05 P04 P06 P21", "types/_psrp": "P08 P16 P12 P13 P15 P22 P09",
    "types/_serializer": "P06 P05 P04 P07 P19 P17 P16"}
ALL = ["P%02d" % i for i in range(1, 25)]


def one_check(m):
    vf = ROOT + "-verif"
    if not os.path.exists(vf):
        shutil.copytree("/verif", vf, ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence"))
    apply(m, ROOT)
    key = m["file"][len("src/psrpcore/"):-3]
    order = ORDER[key].split()
    order += [p for p in ALL if p not in order and os.environ.get("MUT_ALL")]
    m["caught"] = None
    for p in order:
        try:
            r = subprocess.run([vf + "/run.sh", p, "quick"], env=dict(ENV, PSRPMON_REPO=ROOT, PSRPMON_WORKERS="1",
                               PSRPMON_SCALE=os.environ.get("MUT_SCALE", "0.06"),
                               PSRPMON_UNIT_SHARE=os.environ.get("MUT_SHARE", "6")), capture_output=True, text=True, timeout=700)
        except subprocess.TimeoutExpired:
            m["caught"] = p + " timeout"
            break
        if r.returncode == 1:
            m["caught"] = p
            m["why"] = [l for l in r.stdout.splitlines() if l.startswith(("violation", "exception", "hang"))][:1]
            break
        if r.returncode not in (0, 2):
            m["caught"] = p + " rc%d" % r.returncode
            break
    restore(m, ROOT)
    return m


def load(p):
    return [json.loads(l) for l in open(p)]


def main():
    global DESEL
    cmd = sys.argv[1]
    if cmd == "gen":
        return gen(sys.argv[2])
    todo = load(sys.argv[2])
    done = set()
    if os.path.exists(sys.argv[3]):
        done = {m["id"] for m in load(sys.argv[3])}
    log = sys.argv[3] + ".seen"
    if os.path.exists(log):
        done |= {int(x) for x in open(log)}
    todo = [m for m in todo if m["id"] not in done]
    random.Random(5).shuffle(todo)
    DESEL = deselect() if cmd == "test" else []
    fn = one_test if cmd == "test" else one_check
    with multiprocessing.Pool(int(os.environ.get("MUT_JOBS", "8")), init) as pool, open(sys.argv[3], "a") as f, open(log, "a") as g:
        ids = iter(todo)
        for i, r in enumerate(pool.imap_unordered(wrap, [(fn, m) for m in todo])):
            mid, r = r
            g.write("%d\n" % mid)
            g.flush()
            if r:
                f.write(json.dumps(r) + "\n")
                f.flush()
            if i % 100 == 99:
                print(i + 1, "of", len(todo), flush=True)
    subprocess.run("rm -rf /tmp/mut/w*", shell=True)


def wrap(x):
    return x[1]["id"], x[0](x[1])


if __name__ == "__main__":
    main()
