from .values import is_z


class WSet(dict):
    """Set of recorded writes (z3 terms compared by identity)."""
    def add(self, x):
        self[tuple(q.get_id() if is_z(q) else (repr(q) if not isinstance(q, (str, int)) else q) for q in x)] = x

    def __iter__(self):
        return iter(list(self.values()))

    def __ior__(self, o):
        for x in o:
            self.add(x)
        return self
