"""Program index: parses /repo's current source on every run; nothing of it is copied into /verif.

Extraction drops: docstrings, type annotations, `if __name__ == '__main__'` blocks (never executed on import).
"""
import ast, os, hashlib

REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.path.join(REPO, 'crysgsu')

# module name -> file
FILES = {
    'geom': 'geom/__init__.py', 'geom.vect': 'geom/vect.py', 'geom.box': 'geom/box.py',
    'geom.segment': 'geom/segment.py', 'geom.triangle': 'geom/triangle.py',
    'geom.triangles_cloud': 'geom/triangles_cloud.py', 'geom.utils': 'geom/utils.py',
    'geom.trajectory': 'geom/trajectory.py',
    'gsu': 'gsu/__init__.py', 'gsu.node': 'gsu/node.py', 'gsu.edge': 'gsu/edge.py',
    'gsu.face': 'gsu/face.py', 'gsu.zone': 'gsu/zone.py', 'gsu.grid': 'gsu/grid.py',
    'gsu.zones_adjacency_matrix': 'gsu/zones_adjacency_matrix.py',
    'utils': 'utils.py', 'merge': 'merge.py', 'split': 'split.py', 'drops': 'drops.py',
    'remeshing': 'remeshing.py', 'smoothing': 'smoothing.py', 'crys': 'crys.py',
    'gsu_converter': 'convert/gsu_converter.py', 'ansys_to_crystal': 'convert/ansys_to_crystal.py',
    'interpolate': 'convert/interpolate.py', 'lazurit_to_crystal': 'convert/lazurit_to_crystal.py',
}


class ClassInfo:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.methods, self.props, self.setters, self.statics, self.attrs = {}, {}, {}, set(), {}
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                decs = [d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else '')
                        for d in s.decorator_list]
                if 'property' in decs:
                    self.props[s.name] = s
                elif 'setter' in decs:
                    self.setters[s.name] = s
                else:
                    self.methods[s.name] = s
                    if 'staticmethod' in decs:
                        self.statics.add(s.name)
                    if 'classmethod' in decs:
                        self.statics.add('@cls:' + s.name)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.attrs[s.targets[0].id] = s.value
        self.bases = [b for b in node.bases]

    @property
    def key(self):
        return self.module.split('.')[0] + '.' + self.name if self.module.split('.')[0] not in ('gsu', 'geom') \
            else self.name


class ModuleInfo:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path, encoding='utf-8') as f:
            self.src = f.read()
        self.sha = hashlib.sha256(self.src.encode()).hexdigest()[:16]
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(self.src)
        self.funcs, self.classes, self.imports, self.assigns = {}, {}, {}, {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = ClassInfo(s.name, self.name, s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = ('mod', a.name)
                    else:
                        self.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level:
                    pk = self.name.split('.')[0]
                    base = pk + ('.' + base if base else '')
                for a in s.names:
                    self.imports[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.assigns[s.target.id] = s.value
            elif isinstance(s, (ast.Try,)):
                self._scan(s.body)


class Program:
    def __init__(self):
        self.mods = {}

    def mod(self, name):
        if name in self.mods:
            return self.mods[name]
        f = FILES.get(name)
        path = None
        if f:
            path = os.path.join(ROOT, f)
        else:
            for cand in (name.replace('.', '/') + '.py', name.replace('.', '/') + '/__init__.py',
                         'convert/' + name.replace('.', '/') + '.py'):
                p = os.path.join(ROOT, cand)
                if os.path.isfile(p):
                    path = p
                    break
        if path is None or not os.path.isfile(path):
            return None
        m = ModuleInfo(name, path)
        self.mods[name] = m
        return m

    def find_class(self, key):
        """key: 'Face' (gsu/geom package) or 'module.Name'."""
        if '.' in key:
            m, n = key.rsplit('.', 1)
            mi = self.mod(m)
            return mi.classes.get(n) if mi else None
        for pk in ('gsu', 'geom'):
            d = os.path.join(ROOT, pk)
            for fn in sorted(os.listdir(d)):
                if fn.endswith('.py') and fn != '__init__.py':
                    mi = self.mod(pk + '.' + fn[:-3])
                    if mi and key in mi.classes:
                        return mi.classes[key]
        return None

    def find_func(self, qual):
        """'Grid.load' (class key + method) or 'utils:flatten' (module:function). Returns (module, class|None, node)."""
        if ':' in qual:
            m, n = qual.split(':')
            mi = self.mod(m)
            if mi and n in mi.funcs:
                return mi, None, mi.funcs[n]
            return None
        ck, n = qual.rsplit('.', 1)
        ci = self.find_class(ck)
        if not ci:
            return None
        node = ci.methods.get(n) or ci.props.get(n)
        if node is None:
            return None
        return self.mod(ci.module), ci, node
