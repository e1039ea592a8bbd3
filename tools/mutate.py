"""Mutation runs: plants small random changes in copies of /repo and runs the check of a property on each.

usage: mutate.py PROP [-n N] [-s SEED] [-j JOBS] [--files f1,f2] [--only REGEX_OF_FUNCTION] -o OUT.jsonl
Every copy is mounted over /repo in a private mount namespace, so that nothing outside the scratch folder changes.
"""
import argparse
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP_FN = re.compile('^(add_argparse|filter_.*args|plot|to_string|__repr__|__str__|.*argparse.*)')


class Src(object):
    def __init__(self, path):
        self.path = path
        self.text = open(path).read()
        self.lines = self.text.split('\n')
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()) + 1)
        self.raw = self.text.encode()

    def pos(self, line, col):
        return self.off[line - 1] + col

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def get(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode()


CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '//', ast.BitAnd: '|', ast.BitOr: '&', ast.Pow: '*'}
BINTXT = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.BitAnd: '&', ast.BitOr: '|', ast.Pow: '**'}
NAMES = {'min': 'max', 'max': 'min', 'argmin': 'argmax', 'argmax': 'argmin', 'sum': 'mean', 'mean': 'sum', 'any': 'all', 'all': 'any', 'zeros': 'ones', 'ones': 'zeros', 'floor': 'ceil', 'ceil': 'floor', 'minimum': 'maximum',
         'maximum': 'minimum', 'hstack': 'vstack', 'cumsum': 'array', 'logical_and': 'logical_or', 'logical_or': 'logical_and', 'logical_not': 'array', 'exp': 'log', 'log': 'exp', 'sqrt': 'abs', 'abs': 'array', 'sort': 'array',
         'argsort': 'array', 'unique': 'array', 'astype': None, 'copy': None, 'round': 'floor', 'rstrip': 'lstrip', 'rsplit': 'split'}


def close(a, b):
    """names that differ in one character (N1 / N2, x_i / x_j, first / firsts)"""
    if a == b:
        return False
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    ra, rb = a[i:], b[i:]
    return ra[1:] == rb[1:] or ra[1:] == rb or ra == rb[1:]


def mutants(src, tree, skip=True):
    out = []
    names = {}
    attrs = sorted({x.attr for x in ast.walk(tree) if isinstance(x, ast.Attribute)})

    def add(a, b, new, node, fn, kind):
        out.append((a, b, new, node.lineno, fn, kind))

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef,)):
            fn = n.name
            if skip and SKIP_FN.match(fn):
                return
            names[fn] = sorted({x.id for x in ast.walk(n) if isinstance(x, ast.Name)} | {x.arg for x in ast.walk(n) if isinstance(x, ast.arg)})
        if fn is not None:
            if isinstance(n, ast.Compare):
                left = n.left
                for op, c in zip(n.ops, n.comparators):
                    a, b = src.span(left)[1], src.span(c)[0]
                    mid = src.raw[a:b].decode()
                    lead, tail = re.match(r'^[\s)]*', mid).group(0), re.search(r'[\s(]*$', mid).group(0)
                    if type(op) in CMP:
                        for t in CMP[type(op)]:
                            add(a, b, lead + t + tail, n, fn, 'cmp')
                    left = c
            if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
                a, b = src.span(n.left)[1], src.span(n.right)[0]
                mid = src.raw[a:b].decode()
                t = BINTXT[type(n.op)]
                i = mid.find(t)
                if i >= 0:
                    add(a, b, mid[:i] + BIN[type(n.op)] + mid[i + len(t):], n, fn, 'binop')
                # drop one operand
                add(*src.span(n), src.get(n.left), n, fn, 'drop-right')
                add(*src.span(n), src.get(n.right), n, fn, 'drop-left')
            if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
                a, b = src.span(n.target)[1], src.span(n.value)[0]
                mid = src.raw[a:b].decode()
                t = BINTXT[type(n.op)]
                add(a, b, mid.replace(t + '=', '='), n, fn, 'aug')
                add(a, b, mid.replace(t, BIN[type(n.op)], 1), n, fn, 'aug')
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                for t in names.get(fn, ()):
                    if close(n.id, t):
                        add(*src.span(n), t, n, fn, 'name')
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                for a in attrs:
                    if close(n.attr, a):
                        b = src.span(n)[1]
                        add(b - len(n.attr), b, a, n, fn, 'attr')
            if isinstance(n, (ast.Tuple, ast.List)) and len(n.elts) > 2 and all(isinstance(e, ast.Constant) and isinstance(e.value, str) for e in n.elts):
                for i, e in enumerate(n.elts[1:]):
                    add(src.span(n.elts[i])[1], src.span(e)[1], '', n, fn, 'drop-elt')
            if isinstance(n, ast.Constant):
                v = n.value
                if v is True or v is False:
                    add(*src.span(n), str(not v), n, fn, 'bool')
                elif type(v) is int:
                    add(*src.span(n), str(v + 1), n, fn, 'int')
                    if v:
                        add(*src.span(n), str(v - 1), n, fn, 'int')
                elif type(v) is float:
                    add(*src.span(n), repr(v * 2 if v else 1.0), n, fn, 'float')
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
                add(*src.span(n), '(' + src.get(n.operand) + ')', n, fn, 'unary')
            if isinstance(n, ast.BoolOp):
                for x, y in zip(n.values[:-1], n.values[1:]):
                    a, b = src.span(x)[1], src.span(y)[0]
                    mid = src.raw[a:b].decode()
                    w, z = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
                    add(a, b, mid.replace(w, z), n, fn, 'boolop')
            if isinstance(n, (ast.If, ast.While)):
                add(*src.span(n.test), 'True', n, fn, 'cond')
                add(*src.span(n.test), 'False', n, fn, 'cond')
            if isinstance(n, ast.IfExp):
                add(*src.span(n), '(' + src.get(n.body) + ')', n, fn, 'ifexp')
                add(*src.span(n), '(' + src.get(n.orelse) + ')', n, fn, 'ifexp')
            if isinstance(n, ast.Call):
                f = n.func
                nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
                if nm in NAMES and NAMES[nm]:
                    b = src.span(f)[1]
                    add(b - len(nm), b, NAMES[nm], n, fn, 'func')
                if nm in ('copy', 'astype') and isinstance(f, ast.Attribute):
                    add(*src.span(n), src.get(f.value), n, fn, 'nocall')
                if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                    x, y = n.args[0], n.args[1]
                    add(src.span(x)[0], src.span(y)[1], src.get(y) + ', ' + src.get(x), n, fn, 'swap-args')
                for i, kw in enumerate(n.keywords):
                    if kw.arg is None:
                        continue
                    a, b = src.pos(kw.lineno, kw.col_offset), src.pos(kw.end_lineno, kw.end_col_offset)
                    if len(n.args) + len(n.keywords) > 1:
                        pre = src.raw[:a].rstrip()
                        if pre.endswith(b','):
                            add(len(pre) - 1, b, '', n, fn, 'drop-kw')
            if isinstance(n, ast.Slice):
                for part in (n.lower, n.upper):
                    if part is not None:
                        add(*src.span(part), '', n, fn, 'slice')
                        add(*src.span(part), '(' + src.get(part) + ')+1', n, fn, 'slice')
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                add(*src.span(n), src.get(n.value), n, fn, 'no-index')
            if isinstance(n, ast.Attribute) and n.attr == 'T':
                add(*src.span(n), src.get(n.value), n, fn, 'no-transpose')
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Assert, ast.Continue, ast.Break, ast.Raise)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
                if not isinstance(n, ast.Expr) or not re.match('(print|logging|super)', src.get(n)):
                    add(*src.span(n), 'pass', n, fn, 'del-stmt')
            if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple):
                pass
        for ch in ast.iter_child_nodes(n):
            visit(ch, fn)

    visit(tree, None)
    return out


def load_props():
    import props_src
    return {p['id']: p for p in props_src.P}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('-n', type=int, default=60)
    ap.add_argument('-s', type=int, default=0)
    ap.add_argument('-j', type=int, default=4)
    ap.add_argument('--files')
    ap.add_argument('--only')
    ap.add_argument('--checks')
    ap.add_argument('--kinds', help='only these kinds of changes')
    ap.add_argument('-o', required=True)
    a = ap.parse_args()
    p = load_props()[a.prop]
    files = []
    for f in (a.files.split(',') if a.files else p['anchors']['files']):
        f = os.path.join('/repo', f)
        files += [os.path.join(f, x) for x in sorted(os.listdir(f)) if x.endswith('.py') and x != '__init__.py'] if os.path.isdir(f) else [f]
    al = []
    for f in files:
        s = Src(f)
        try:
            tree = ast.parse(s.text)
        except SyntaxError:         # some files of the repository were never finished
            continue
        for m in mutants(s, tree, not a.only):
            if a.only and not re.search(a.only, m[4]):
                continue
            if a.kinds and m[5] not in a.kinds.split(','):
                continue
            new = s.raw[:m[0]] + m[2].encode() + s.raw[m[1]:]
            if new == s.raw:
                continue
            try:
                compile(new, f, 'exec')
            except (SyntaxError, ValueError):
                continue
            al.append((f, m, s))
    r = random.Random(a.s)
    r.shuffle(al)
    todo = al[:a.n]
    print('%s: %d of %d mutants' % (a.prop, len(todo), len(al)), flush=True)
    base = '/tmp/mt/%s' % a.prop
    shutil.rmtree(base, ignore_errors=True)
    lock = threading.Lock()
    stat = dict(killed=0, survived=0, other=0)
    checks = a.checks.split(',') if a.checks else [a.prop]

    def work(w):
        d = '%s/%d' % (base, w)
        os.makedirs(d + '/ev')
        shutil.copytree('/repo', d + '/repo', symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__', 'tests'))
        while True:
            with lock:
                if not todo:
                    break
                f, m, s = todo.pop()
            t = d + f
            new = s.raw[:m[0]] + m[2].encode() + s.raw[m[1]:]
            open(t, 'wb').write(new)
            res, msg = 'survived', ''
            for c in checks:
                try:
                    q = subprocess.run(['unshare', '-Urm', 'sh', '-c', 'mount --bind %s/repo /repo && mount --bind %s/ev %s/evidence && exec bash %s/pbt/run.sh %s' % (d, d, VERIF, VERIF, c)],
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, PBT_FAST='1', VERIF_SEED='1'), timeout=600)
                    rc, o = q.returncode, q.stdout.decode(errors='replace')
                except subprocess.TimeoutExpired:
                    rc, o = 99, 'timeout'
                if rc == 1:
                    res, msg = 'killed', [l for l in o.split('\n') if l.startswith('FAST')][:1]
                    break
                elif rc != 0:
                    res, msg = 'other', o[-300:]
                    break
            open(t, 'wb').write(s.raw)
            n = s.raw[:m[0]].count(b'\n')
            k = new[m[0]:m[0] + len(m[2])].count(b'\n')
            e = s.raw[:m[1]].count(b'\n')
            row = dict(prop=a.prop, res=res, file=os.path.relpath(f, '/repo'), line=n + 1, fn=m[4], kind=m[5], old='\n'.join(s.lines[n:e + 1]), new='\n'.join(new.decode().split('\n')[n:n + k + 1]), msg=msg)
            with lock:
                stat[res] += 1
                with open(a.o, 'a') as h:
                    h.write(json.dumps(row) + '\n')
    ts = [threading.Thread(target=work, args=(i,)) for i in range(a.j)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree(base, ignore_errors=True)
    print(a.prop, stat, flush=True)


if __name__ == '__main__':
    main()
