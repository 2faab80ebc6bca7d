"""Systematic small changes to the functions the properties depend on, run against the concrete harnesses: which changes are missed?
mutate.py OUT.jsonl [-s seconds] [-f file-substring] [-q function-substring] [-p PROP]   (development aid; no check uses it)"""
import warnings
warnings.simplefilter("ignore")
import ast, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
R = '/repo/crysgsu/'
MAP = [  # file, function regex, properties
    ('gsu/grid.py', r'^(__init__|clear|find_near_node|add_node|add_edge|add_face|link_|find_edge|complex_link|load|set_zones_ids|reset_zones_ids)$|^link_(node_edge|node_face|edge_face)', ['C01', 'C02', 'C09', 'C05']),
    ('gsu/grid.py', r'bfs', ['C21']), ('gsu/grid.py', r'^store$', ['C02']), ('gsu/grid.py', r'^store_mpi$', ['C07']),
    ('gsu/grid.py', r'decompose|split_zone|unlink_faces|check_faces|link_nodes_and_edges_to_zones', ['C03', 'C04', 'C05']),
    ('gsu/grid.py', r'move_from_mean|mean_p|mark_all', ['C13']), ('gsu/grid.py', r'calc_data', ['C08', 'C07']),
    ('gsu/grid.py', r'del_|divide_face|collapse|cut_|reuse_gloids', ['C09']), ('gsu/grid.py', r'get_triangles_list', ['C14', 'C11']),
    ('gsu/grid.py', r'_count$|faces_count', ['C03', 'C04', 'C02', 'C06']),
    ('gsu/edge.py', r'.', ['C19', 'C06', 'C01', 'C13']), ('gsu/face.py', r'.', ['C19', 'C04', 'C01', 'C09', 'C02', 'C21', 'C18']),
    ('gsu/node.py', r'.', ['C01', 'C09', 'C13']), ('gsu/zone.py', r'.', ['C02', 'C07', 'C05', 'C04', 'C03', 'C01']),
    ('gsu/zones_adjacency_matrix.py', r'.', ['C06']),
    ('geom/box.py', r'.', ['C20', 'C11', 'C14', 'C10']), ('geom/segment.py', r'.', ['C20', 'C10', 'C14', 'C11']), ('geom/trajectory.py', r'.', ['C14', 'C20']),
    ('geom/triangle.py', r'.', ['C20', 'C10', 'C11', 'C12', 'C13']), ('geom/triangles_cloud.py', r'.', ['C11', 'C14']),
    ('geom/utils.py', r'.', ['C20', 'C12', 'C10']), ('geom/vect.py', r'.', ['C20', 'C10', 'C13', 'C14']),
    ('drops.py', r'.', ['C14']), ('merge.py', r'.', ['C08']), ('split.py', r'.', ['C22', 'C03', 'C07']), ('crys.py', r'.', ['C07', 'C08']),
    ('remesh.py', r'.', ['C12', 'C22']), ('remeshing.py', r'.', ['C12', 'C13', 'C22']), ('smoothing.py', r'.', ['C13', 'C12']),
    ('utils.py', r'.', ['C15', 'C08']),
    ('convert/ansys_to_crystal.py', r'.', ['C16']), ('convert/gsu_converter.py', r'.', ['C17']), ('convert/interpolate.py', r'.', ['C18']),
]
SKIP = re.compile(r'print_|__str__|__repr__|NullSpace|is_good|pseudo_2d')
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*'}


def mutants(src, fn):
    """(offset range, replacement, description) of every change to the function fn."""
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    sb = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    txt = lambda n: sb[slice(*pos(n))].decode()

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)) and c is not fn:
                continue
            if isinstance(c, ast.Expr) and (isinstance(c.value, ast.Constant) or isinstance(c.value, ast.Call) and getattr(c.value.func, 'id', '') == 'print'):
                continue
            if isinstance(c, (ast.Raise, ast.Assert)):
                continue
            yield c
            yield from walk(c)
    for n in walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, b = pos(n)
            yield (a, b), '%s %s %s' % (txt(n.left), CMP[type(n.ops[0])], txt(n.comparators[0])), 'cmp'
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            yield pos(n), '%s %s %s' % (txt(n.left), BIN[type(n.op)], txt(n.right)), 'bin'
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            yield pos(n), repr(n.value + 1) if n.value != 0.0 or type(n.value) is int else '0.5', 'const'
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            yield pos(n), repr(not n.value), 'const'
        elif isinstance(n, ast.BoolOp):
            yield pos(n), (' or ' if isinstance(n.op, ast.And) else ' and ').join('(%s)' % txt(v) for v in n.values), 'bool'
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield pos(n), '(%s)' % txt(n.operand), 'unary'
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Break, ast.Continue, ast.Delete)) or isinstance(n, ast.Assign) and not isinstance(n.targets[0], (ast.Name, ast.Tuple)):
            yield pos(n), 'pass', 'del'
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            a, b = n.args
            yield (pos(a)[0], pos(b)[1]), '%s, %s' % (txt(b), txt(a)), 'swap'
        elif isinstance(n, ast.If):
            t = n.test
            yield pos(t), 'not (%s)' % txt(t), 'neg'
            yield pos(t), 'True', 'true'


def jobs(fsub, qsub, prop):
    for rel, rx, props in MAP:
        if fsub and fsub not in rel or prop and prop not in props:
            continue
        src = open(R + rel, newline='').read().replace('\r\n', '\n')
        for n in ast.walk(ast.parse(src)):
            if isinstance(n, ast.FunctionDef) and re.search(rx, n.name) and not SKIP.search(n.name) and (not qsub or qsub in n.name):
                for (a, b), new, kind in mutants(src, n):
                    old = src.encode()[a:b].decode()
                    if 'verbose' in old:
                        continue
                    t = (src.encode()[:a] + new.encode() + src.encode()[b:]).decode()
                    try:
                        ast.parse(t)
                    except SyntaxError:
                        continue
                    yield dict(file=rel, fn=n.name, line=src.encode()[:a].count(b'\n') + 1, kind=kind, old=old[:120], new=new[:120], props=[prop] if prop else props), t


def run(job, text, secs):
    w = tempfile.mkdtemp(prefix='mu_')
    try:
        shutil.copytree('/repo/crysgsu', w + '/r/crysgsu', ignore=shutil.ignore_patterns('__pycache__'))
        open(w + '/r/crysgsu/' + job['file'], 'w', newline='').write(text)
        got = None
        blind = []
        for p in job['props']:
            out = w + '/o.json'
            if os.path.exists(out):
                os.unlink(out)
            try:
                subprocess.run(['/opt/venv/bin/python', '/verif/falsify/run.py', p, '--seed', '1000', '--tier', 'quick', '--seconds', str(secs), '--out', out],
                               env=dict(os.environ, VERIF_REPO=w + '/r', PYTHONDONTWRITEBYTECODE='1'), cwd=w, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=secs * 2 + 60)
            except subprocess.TimeoutExpired:
                pass
            if os.path.exists(out):
                r = json.load(open(out))
                if r['failure']:
                    got = (p, r['failure']['message'][:100])
                    break
                if r['blind']:
                    blind.append((p, r['blind'][:100]))
            else:
                blind.append((p, 'no answer'))
        return dict(job, killed=got, blind=blind)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    a = sys.argv[1:]
    opt = {k: a[a.index(k) + 1] if k in a else None for k in ('-s', '-f', '-q', '-p', '-j')}
    js = list(jobs(opt['-f'], opt['-q'], opt['-p']))
    print(len(js), 'changes')
    with open(a[0], 'w') as f, ThreadPoolExecutor(int(opt['-j'] or 8)) as ex:
        k = 0
        for r in ex.map(lambda x: run(x[0], x[1], float(opt['-s'] or 5)), js):
            f.write(json.dumps(r) + '\n')
            f.flush()
            k += bool(r['killed'])
    print('caught', k)


main()
