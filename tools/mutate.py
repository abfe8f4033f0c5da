"""mutate.py FILE PROPS N SEED [LINES]: mutation testing.  Makes N random small changes (one at a time) to /repo/CasimirRio/FILE
   in scratch copies and runs the quick checks of PROPS (comma separated) against each until one reports it; prints the
   survivors.  Several can run at once (VERIF_JOBS limits the processes of a check)."""
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile

SWAP = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.Mod: [ast.FloorDiv],
        ast.FloorDiv: [ast.Mod]}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}


class Sites(ast.NodeVisitor):
    def __init__(self):
        self.sites = []
        self.skip = 0

    def visit_If(self, n):
        if isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and n.test.left.id == "__name__":
            return
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.sites.append((n, "pass"))

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.generic_visit(n)

    def visit_Assert(self, n):
        return

    def generic_visit(self, n):
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
            for o in SWAP[type(n.op)]:
                self.sites.append((n, o))
            self.sites.append((n, "left"))
            if isinstance(n.op, (ast.Add, ast.Sub)):
                self.sites.append((n, "right"))
        if isinstance(n, ast.AugAssign) and type(n.op) in SWAP:
            self.sites.append((n, SWAP[type(n.op)][0]))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP[type(n.ops[0])]:
                self.sites.append((n, o))
        if isinstance(n, ast.BoolOp):
            self.sites.append((n, "flip"))
            self.sites.append((n, "first"))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            self.sites.append((n, "drop"))
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            self.sites.append((n, "plus"))
            self.sites.append((n, "minus" if n.value else "plus"))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            self.sites.append((n, "not"))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            self.sites.append((n, "never"))
            if not isinstance(n, ast.While):
                self.sites.append((n, "always"))
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            self.sites.append((n, "swapargs"))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy",):
            self.sites.append((n, "nocopy"))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in PAIRS:
            self.sites.append((n, "name"))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in PAIRS:
            self.sites.append((n, "attr"))
        if isinstance(n, (ast.Assign, ast.AugAssign)) and isinstance(n, ast.AugAssign):
            self.sites.append((n, "pass"))
        super().generic_visit(n)


PAIRS = {}
for a, b in (("lmax", "lssmax"), ("l1", "l2"), ("r1", "r2"), ("mat1", "mat2"), ("epsilon", "mu"), ("eps_e", "eps_i"), ("mu_e", "mu_i"), ("MieA", "MieB"),
             ("rTE1", "rTE2"), ("rTM1", "rTM2"), ("id_i", "id_e"), ("sin", "cos"), ("ones", "zeros"), ("argmax", "argmin"), ("maximum", "minimum"),
             ("max", "min"), ("lmin", "lmax"), ("mat1", "mat3"), ("te", "tm"), ("vEE_ab", "vEE_ba"), ("vEM_ab", "vEM_ba"), ("A", "B"), ("nmin", "nmax")):
    PAIRS.setdefault(a, b)
    PAIRS.setdefault(b, a)


def apply(src, node, how):
    seg = ast.get_source_segment(src, node)
    if how == "pass":
        new = "pass"
    else:
        n = ast.parse(ast.unparse(node)).body[0] if isinstance(node, ast.stmt) else ast.parse(ast.unparse(node), mode="eval").body
        if isinstance(how, type) and isinstance(n, ast.Compare):
            n.ops = [how()]
        elif isinstance(how, type):
            n.op = how()
        elif how == "left":
            n = n.left
        elif how == "right":
            n = n.right
        elif how == "first":
            n = n.values[0]
        elif how == "flip":
            n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
        elif how == "drop":
            n = n.operand
        elif how in ("plus", "minus"):
            v = n.value
            d = 1 if how == "plus" else -1
            n = ast.Constant(v+d) if type(v) is int else ast.Constant(v*(1.1 if d > 0 else 0.5))
        elif how == "not":
            n = ast.Constant(not n.value)
        elif how == "swapargs":
            n.args[0], n.args[1] = n.args[1], n.args[0]
        elif how == "nocopy":
            n = n.func.value
        elif how == "name":
            n = ast.Name(PAIRS[n.id])
        elif how == "attr":
            n.attr = PAIRS[n.attr]
        elif how in ("never", "always"):
            t = node.test
            node, seg = t, ast.get_source_segment(src, t)
            n = ast.Constant(how == "always")
        new = "("+ast.unparse(n)+")" if isinstance(n, ast.expr) else ast.unparse(n)
    lines = src.splitlines(keepends=True)
    def off(l, c):
        return sum(len(x) for x in lines[:l-1])+len(lines[l-1].encode()[:c].decode())
    a, b = off(node.lineno, node.col_offset), off(node.end_lineno, node.end_col_offset)
    return src[:a]+new+src[b:], node.lineno, seg, new


def main():
    name, props, n, seed = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3]), int(sys.argv[4])
    rng = [int(x) for x in sys.argv[5].split("-")] if len(sys.argv) > 5 else None
    src = open("/repo/CasimirRio/"+name).read()
    v = Sites()
    v.visit(ast.parse(src))
    sites = [s for s in v.sites if not rng or rng[0] <= s[0].lineno <= rng[1]]
    random.Random(seed).shuffle(sites)
    print("# %s: %d sites" % (name, len(sites)), flush=True)
    done = 0
    w = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree("/repo", w+"/repo", symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".git"))
        for node, how in sites:
            if done >= n:
                break
            try:
                text, line, old, new = apply(src, node, how)
                compile(text, name, "exec")
            except (SyntaxError, ValueError, TypeError):
                continue
            if text == src:
                continue
            done += 1
            with open(w+"/repo/CasimirRio/"+name, "w") as f:
                f.write(text)
            caught = None
            for p in props:
                r = subprocess.run(["./check.sh", p, "quick"], env=dict(os.environ, VERIF_REPO=w+"/repo", VERIF_FAST="1"), capture_output=True, text=True)
                if r.returncode == 1:
                    caught = p
                    break
                if r.returncode != 0:
                    caught = "%s rc=%d %s" % (p, r.returncode, r.stderr[-200:].replace("\n", " "))
                    break
            tag = "caught  " if caught and len(caught) == 3 else "NOANSWER" if caught else "SURVIVED"
            old1 = " ".join((old or "").split())[:80]
            print("%s %s:%d  %s  ->  %s   %s" % (tag, name, line, old1, " ".join(new.split())[:80], caught or ""), flush=True)
    finally:
        shutil.rmtree(w)


os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
main()
