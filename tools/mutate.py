"""Mutation sweep over filterpy: which small changes does no check notice?

mutate.py list [FILE ...]                 every mutant, one JSON line each
mutate.py run OUT.jsonl [--procs 8] [--frac .03] [--only FILE[:LINE]] [--ids 3,17] [--skip DONE.jsonl] [--not KIND,KIND]
Each mutant is written into a scratch copy of /repo and the worlds that exercise its file run a fraction of their quick runs
against it, unminimised, until one reports.  Survivors are for reading: equivalent, outside the properties, or a gap.
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
K = 'filterpy/kalman/'
GEN = ['C20', 'C03', 'C07', 'C06', 'C08', 'C02', 'C04', 'C05']
FILES = {
    K + 'kalman_filter.py': ['C01', 'C20', 'C05', 'C04', 'C15', 'C12', 'C02', 'C03', 'C06', 'C07', 'C16', 'C08', 'C09', 'C10'],
    K + 'EKF.py': ['C01', 'C19', 'C20', 'C04', 'C15', 'C02', 'C03', 'C06', 'C07', 'C16', 'C08'],
    K + 'UKF.py': ['C19', 'C01', 'C12', 'C20', 'C05', 'C04', 'C02', 'C03', 'C06', 'C07', 'C08'],
    K + 'CubatureKalmanFilter.py': ['C19', 'C01', 'C20', 'C04', 'C02', 'C03', 'C06', 'C07', 'C08'],
    K + 'square_root.py': ['C01', 'C20', 'C04', 'C15', 'C02', 'C03', 'C06', 'C07', 'C16', 'C08'],
    K + 'information_filter.py': ['C01', 'C20', 'C04', 'C15', 'C02', 'C03', 'C06', 'C07', 'C08'],
    K + 'fading_memory.py': ['C01', 'C20', 'C05', 'C04', 'C15', 'C02', 'C03', 'C06', 'C07', 'C16', 'C08'],
    K + 'ensemble_kalman_filter.py': ['C13', 'C20', 'C02', 'C03', 'C04', 'C06', 'C07', 'C08'],
    K + 'fixed_lag_smoother.py': ['C11', 'C20', 'C03', 'C02', 'C06', 'C07', 'C08'],
    K + 'IMM.py': ['C09', 'C20', 'C02', 'C06', 'C07', 'C08'],
    K + 'mmae.py': ['C10', 'C20', 'C02', 'C06', 'C07', 'C08'],
    K + 'sigma_points.py': ['C19', 'C01', 'C07', 'C03', 'C06'],
    K + 'unscented_transform.py': ['C19', 'C01', 'C12', 'C07', 'C03'],
    'filterpy/common/helpers.py': ['C08', 'C05', 'C01', 'C06', 'C07', 'C19'],
    'filterpy/gh/gh_filter.py': ['C17', 'C20', 'C05', 'C06', 'C07', 'C08', 'C02'],
    'filterpy/memory/fading_memory.py': ['C17', 'C20', 'C05', 'C06', 'C07', 'C08'],
    'filterpy/leastsq/least_squares.py': ['C17', 'C20', 'C06', 'C07', 'C08'],
    'filterpy/discrete_bayes/discrete_bayes.py': ['C18', 'C06', 'C07'],
    'filterpy/monte_carlo/resampling.py': ['C14', 'C07'],
    'filterpy/hinfinity/hinfinity_filter.py': ['C20', 'C04', 'C05', 'C02', 'C03', 'C06', 'C07', 'C08'],
    'filterpy/stats/stats.py': ['C04', 'C01', 'C09'],
}
SKIP = {'__repr__', 'test_matrix_dimensions', 'optimal_noise_smoothing', 'least_squares_parameters', 'critical_damping_parameters',
        'benedict_bornder_constants', 'runge_kutta4', 'pretty_str', '_is_oneline', 'inv_diagonal', 'outer_product_sum', 'kinematic_kf',
        'VRF', 'VRF_prediction', 'bias_error'}
ONLY = {'filterpy/stats/stats.py': {'logpdf', 'mahalanobis', 'log_likelihood', 'likelihood', '_validate_vector'}}
SWAP = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.Mod: '*', ast.FloorDiv: '*', ast.MatMult: '*'}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


class Mutants(object):
    def __init__(self, rel, repo='/repo'):
        self.rel = rel
        self.src = open(os.path.join(repo, rel), newline='').read()
        self.nl = '\r\n' if '\r\n' in self.src else '\n'
        self.lines = self.src.replace('\r\n', '\n').split('\n')
        self.text = '\n'.join(self.lines)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()) + 1)
        self.raw = self.text.encode()
        self.out = []
        self.seen = set()
        self.fn = []
        self.visit_body(ast.parse(self.text))

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode()

    def add(self, n, new, what):
        a, b = self.span(n)
        old = self.raw[a:b].decode()
        if new == old or (a, b, new) in self.seen:
            return
        self.seen.add((a, b, new))
        text = (self.raw[:a] + new.encode() + self.raw[b:]).decode()
        try:
            compile(text, self.rel, 'exec')
        except SyntaxError:
            return
        self.out.append(dict(file=self.rel, line=n.lineno, fn='.'.join(self.fn), what=what, a=a, b=b, old=old, new=new))

    def visit_body(self, tree):
        for node in ast.iter_child_nodes(tree):
            if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
                if node.name in SKIP or (isinstance(tree, ast.Module) and self.rel in ONLY and node.name not in ONLY[self.rel]):
                    continue
                self.fn.append(node.name)
                if isinstance(node, ast.FunctionDef):
                    self.function(node)
                else:
                    self.visit_body(node)
                self.fn.pop()

    def function(self, f):
        self.params = {a.arg for a in f.args.args + f.args.kwonlyargs}
        for d in f.args.defaults:
            self.expr(d)
        self.block(f.body)

    def block(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.fn.append(s.name)
                self.function(s)
                self.fn.pop()
                continue
            self.stmt(s)
            if i and not isinstance(s, (ast.Return, ast.If, ast.For)) and isinstance(body[i - 1], (ast.Assign, ast.Expr)):
                p = body[i - 1]
                if not (isinstance(p, ast.Expr) and isinstance(p.value, ast.Constant)):
                    a, b = self.seg(p), self.seg(s)
                    m = copy.copy(p)
                    m.end_lineno, m.end_col_offset = s.end_lineno, s.end_col_offset
                    mid = self.raw[self.span(p)[1]:self.span(s)[0]].decode()
                    self.add(m, b + mid + a, 'swap statements')

    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr)):
            self.add(s, 'pass', 'delete')
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
            t, v = self.seg(s.targets[0]), s.value
            if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Sub, ast.Mult)) and self.seg(v.left) == t:
                self.add(s, '%s %s= %s' % (t, {ast.Add: '+', ast.Sub: '-', ast.Mult: '*'}[type(v.op)], self.seg(v.right)), 'in place')
            if isinstance(s.targets[0], ast.Attribute) and not isinstance(v, ast.Constant):
                self.add(s, '%s[...] = %s' % (t, self.seg(v)), 'write into')
        if isinstance(s, ast.AugAssign):
            t = self.seg(s.target)
            o = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/'}.get(type(s.op))
            if o:
                n = {'+': '-', '-': '+', '*': '/', '/': '*'}[o]
                self.add(s, '%s %s= %s' % (t, n, self.seg(s.value)), 'augmented')
                self.add(s, '%s = %s %s (%s)' % (t, t, o, self.seg(s.value)), 'rebind')
        if isinstance(s, (ast.If, ast.While)):
            self.add(s.test, '(True)', 'condition')
            self.add(s.test, '(False)', 'condition')
        if isinstance(s, ast.Return) and s.value is not None and isinstance(s.value, ast.Tuple):
            pass
        for f, v in ast.iter_fields(s):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                self.block(v)
            elif isinstance(v, list) and v and isinstance(v[0], ast.ExceptHandler):
                for h in v:
                    self.block(h.body)
            elif isinstance(v, ast.expr):
                self.expr(v)
            elif isinstance(v, list):
                for e in v:
                    if isinstance(e, ast.expr):
                        self.expr(e)

    def expr(self, e):
        for n in ast.walk(e):
            if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
                if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                    continue
                self.add(n, '%s %s %s' % (self.seg(n.left), SWAP[type(n.op)], self.seg(n.right)), 'operator')
                if isinstance(n.op, (ast.Add, ast.Sub)):
                    self.add(n, self.seg(n.left), 'drop term')
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                self.add(n, self.seg(n.operand), 'unary')
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                m = copy.deepcopy(n)
                m.ops = [CMP[type(n.ops[0])]()]
                self.add(n, '(%s)' % ast.unparse(m), 'comparison')
            elif isinstance(n, ast.BoolOp):
                for v in n.values:
                    self.add(n, '(%s)' % self.seg(v), 'boolean')
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                self.add(n, repr(n.value + 1), 'constant')
                if n.value not in (0, 1):
                    self.add(n, '0', 'constant')
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                self.add(n, repr(not n.value), 'constant')
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                if n.attr == 'T':
                    self.add(n, self.seg(n.value), 'transpose')
                if isinstance(n.value, ast.Name) and n.value.id == 'self' and n.attr in self.params:
                    self.add(n, n.attr, 'argument for attribute')
                if isinstance(n.value, ast.Name) and n.value.id == 'self':
                    for a, b in (('_prior', ''), ('_post', '_prior'), ('_post', '')):
                        if n.attr.endswith(a):
                            self.add(n, 'self.' + n.attr[:-len(a)] + b, 'other attribute')
                    if n.attr in ('x', 'P'):
                        self.add(n, 'self.%s_prior' % n.attr, 'other attribute')
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and 'self' in self.params and n.id in self.params - {'self'} \
                    and len(n.id) <= 8:
                self.add(n, 'self.' + n.id, 'attribute for argument')
            elif isinstance(n, ast.Call):
                f = self.seg(n.func)
                if isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
                    self.add(n, self.seg(n.func.value), 'no copy')
                elif f in ('copy', 'deepcopy', 'copy.deepcopy', 'np.copy', 'np.array', 'array') and n.args:
                    self.add(n, self.seg(n.args[0]), 'no copy')
                    if f.endswith('deepcopy'):
                        self.add(n, '__import__("copy").copy(%s)' % self.seg(n.args[0]), 'shallow')
                if f in ('dot', 'np.dot') and len(n.args) == 2:
                    self.add(n, '%s(%s, %s)' % (f, self.seg(n.args[1]), self.seg(n.args[0])), 'swap arguments')
                for i, k in enumerate(n.keywords):
                    if k.arg:
                        m = copy.deepcopy(n)
                        del m.keywords[i]
                        self.add(n, ast.unparse(m), 'drop keyword %s' % k.arg)
                if n.args and isinstance(n.args[-1], ast.Starred):
                    m = copy.deepcopy(n)
                    m.args.pop()
                    self.add(n, ast.unparse(m), 'drop *args')


def every(files=None):
    out = []
    for rel in files or FILES:
        out += Mutants(rel).out
    for i, m in enumerate(out):
        m['id'] = i
    return out


def write(m, d):
    s = open(os.path.join('/repo', m['file']), newline='').read()
    crlf = '\r\n' in s
    raw = s.replace('\r\n', '\n').encode()
    t = (raw[:m['a']] + m['new'].encode() + raw[m['b']:]).decode()
    open(os.path.join(d, m['file']), 'w', newline='').write(t.replace('\n', '\r\n') if crlf else t)


def judge(prop_list, frac):
    """in a process whose VERIF_REPO is the mutated copy: first report, or survived"""
    sys.path.insert(0, HOME)
    from sim import runner
    from sim.core import Ctx
    for prop in prop_list:
        w = runner.load(prop)
        n = max(60, int(w.RUNS * frac))
        for lo in range(0, n, 20):
            def go(lo=lo):
                for i in range(lo, min(n, lo + 20)):
                    plan = runner.make_plan(w, 1, i, 'quick')
                    v = runner.run_plan(w, plan, Ctx())
                    if v is not None:
                        return i, v
                return None
            r = runner.in_child(lambda: (go(),))
            if r is None:
                return prop, lo, 'died', ''
            if r[0] is not None:
                return prop, r[0][0], r[0][1][0], r[0][1][1][:160]
    return None


def main():
    a = sys.argv[1:]
    if a[0] == 'list':
        for m in every(a[1:] or None):
            print(json.dumps(m))
        return
    if a[0] == 'judge':
        try:
            print('JUDGED ' + json.dumps(judge(a[1].split(','), float(a[2]))))
        except BaseException as e:
            print('JUDGED ' + json.dumps(['import', 0, type(e).__name__, str(e)[:150]]))
        sys.stdout.flush()
        os._exit(0)
    opt = dict(zip(a[2::2], a[3::2]))
    ms = every()
    if '--only' in opt:
        f, _, l = opt['--only'].partition(':')
        ms = [m for m in ms if m['file'].endswith(f) and (not l or m['line'] == int(l))]
    if '--ids' in opt:
        ids = set(map(int, opt['--ids'].split(',')))
        ms = [m for m in ms if m['id'] in ids]
    done = set()
    for f in (opt.get('--skip'), a[1]):
        if f and os.path.exists(f):
            for l in open(f):
                d = json.loads(l)
                done.add((d['file'], d['a'], d['b'], d['new']))
    ms = [m for m in ms if (m['file'], m['a'], m['b'], m['new']) not in done]
    if '--not' in opt:
        ms = [m for m in ms if m['what'] not in opt['--not'].split(',')]
    random.Random(1).shuffle(ms)
    procs = int(opt.get('--procs', 8))
    frac = opt.get('--frac', '.03')
    free = []
    for _ in range(procs):
        d = tempfile.mkdtemp(prefix='mut-')
        subprocess.check_call('git -C /repo archive HEAD | tar -x -C ' + d, shell=True)
        free.append(d)
    dirs = list(free)
    out = open(a[1], 'a')

    def one(m):
        d = free.pop()
        try:
            write(m, d)
            env = dict(os.environ, VERIF_REPO=d, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
            try:
                r = subprocess.run([PY, os.path.abspath(__file__), 'judge', ','.join(FILES[m['file']]), frac], env=env, cwd=HOME,
                                   capture_output=True, text=True, timeout=1500)
                got = [x for x in r.stdout.splitlines() if x.startswith('JUDGED ')]
                v = json.loads(got[-1][7:]) if got else ['crash', 0, 'crash', r.stderr[-200:]]
            except subprocess.TimeoutExpired:
                v = ['timeout', 0, 'timeout', '']
            shutil.copy(os.path.join('/repo', m['file']), os.path.join(d, m['file']))
            out.write(json.dumps(dict(m, verdict=v)) + '\n')
            out.flush()
        finally:
            free.append(d)
    with ThreadPoolExecutor(procs) as ex:
        list(ex.map(one, ms))
    for d in dirs:
        shutil.rmtree(d)


if __name__ == '__main__':
    main()
