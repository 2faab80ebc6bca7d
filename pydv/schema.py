"""Heap schema: the fields of the mesh classes and the type of value each holds."""
V = ('Vect',)


def L(c):
    return ('List', ('Ref', c))


KEY = ('Tup', ('Real', 'Real', 'Real'))
MESH = {
    'Node': {'GloId': 'Int', 'P': V, 'RoundedCoords': KEY, 'Edges': L('Edge'), 'Faces': L('Face'), 'border': 'Bool'},
    'Edge': {'GloId': 'Int', 'Nodes': L('Node'), 'Faces': L('Face'), 'border': 'Bool'},
    'Face': {'GloId': 'Int', 'Data': ('Dict', 'Str', 'Real'), 'Nodes': L('Node'), 'Edges': L('Edge'),
             'Zone': ('Ref', 'Zone'), 'bfs_mark': 'Bool'},
    'Zone': {'Id': 'Int', 'Name': 'Str', 'Nodes': L('Node'), 'Edges': L('Edge'), 'Faces': L('Face'), 'IsFixed': 'Bool'},
    'Grid': {'Name': 'Str', 'Nodes': L('Node'), 'Edges': L('Edge'), 'Faces': L('Face'), 'Zones': L('Zone'),
             'RoundedCoordsBag': ('Set', KEY), 'number_of_border_nodes': 'Int'},
}


def mesh(**extra):
    s = {c: dict(f) for c, f in MESH.items()}
    for c, f in extra.items():
        s.setdefault(c, {}).update(f)
    return s
