from .common import *

SCHEMA = mesh()
OPTS = {}
C = Contract
f_, e_, i_, k_ = const('f', 'Face'), const('e', 'Edge'), z3.Int('i'), z3.Int('k')
# An arbitrary set of faces, required only to be closed under "share an edge with a face that satisfies the predicate":
# what is proved inside every such set holds inside the smallest one, the faces reachable from the start.
CLOSED = z3.Function('closed_set', ref_sort('Face'), z3.BoolSort())
mark = lambda s, f: s.get('Face', 'bfs_mark', f)
ingrid = lambda s, f: s.cnt('Grid.Faces', s.self)[f] >= 1
ecnt = lambda s, f: s.n('Face.Edges', f)
edge = lambda s, f, k: s.el('Face.Edges', f)[k]
nf = lambda s, e: s.n('Edge.Faces', e)
ef = lambda s, e, q: s.el('Edge.Faces', e)[q]


def mesh_ok(s):
    """Faces of the grid: their edges list them and one or two faces, all of the grid."""
    e = edge(s, f_, k_)
    rng = And(ingrid(s, f_), 0 <= k_, k_ < ecnt(s, f_))
    return [('edges of a face list it and at most one other face of the grid', ForAll([f_, k_], Implies(rng, And(
                e != null('Edge'), Or(And(nf(s, e) == 1, ef(s, e, 0) == f_), And(nf(s, e) == 2, Or(ef(s, e, 0) == f_, ef(s, e, 1) == f_),
                                                                               ef(s, e, 0) != ef(s, e, 1), ingrid(s, ef(s, e, 0)), ingrid(s, ef(s, e, 1)))))), patterns=[e])),
            ('faces are objects listed once', ForAll([f_], Implies(ingrid(s, f_), And(f_ != null('Face'), s.cnt('Grid.Faces', s.self)[f_] == 1)), patterns=[s.cnt('Grid.Faces', s.self)[f_]]))]


def closure(s, pred):
    e = edge(s, f_, k_)
    return ('closed set', ForAll([f_, k_], Implies(And(CLOSED(f_), ingrid(s, f_), 0 <= k_, k_ < ecnt(s, f_), nf(s, e) == 2),
                                                   And([Implies(pred(ef(s, e, q)), CLOSED(ef(s, e, q))) for q in (0, 1)])), patterns=[z3.MultiPattern(e, CLOSED(f_))]))


def comp_req(s):
    pred = s.pred('pred')
    return mesh_ok(s) + [('start is a face of the grid', ingrid(s, s.start)), closure(s, pred), ('the set holds the start', CLOSED(s.start))]


def members(s, p):
    """p lists exactly the newly marked faces, each once; all satisfy the predicate and lie in every closed set."""
    o = s.old
    pred = s.pred('pred')
    return [('lists exactly the newly marked faces, once', ForAll([f_], p.cnt[f_] == If(And(mark(s, f_), Not(mark(o, f_))), 1, 0), patterns=[p.cnt[f_]])),
            ('marks are never cleared', ForAll([f_], Implies(mark(o, f_), mark(s, f_)), patterns=[mark(s, f_)])),
            ('only faces of the grid that satisfy the predicate', ForAll([f_], Implies(p.cnt[f_] >= 1, And(pred(f_), ingrid(o, f_))), patterns=[p.cnt[f_]])),
            ('only reachable faces', ForAll([f_], Implies(p.cnt[f_] >= 1, CLOSED(f_)), patterns=[p.cnt[f_]]))]


def expanded(s, p, upto):
    """Satisfying neighbours of the first faces of the path are marked."""
    pred = s.pred('pred')
    e = edge(s, p.el[i_], k_)
    return [('satisfying neighbours are marked', ForAll([i_, k_], Implies(And(0 <= i_, i_ < upto, 0 <= k_, k_ < ecnt(s, p.el[i_]), nf(s, e) == 2), And(
        [Implies(pred(ef(s, e, q)), mark(s, ef(s, e, q))) for q in (0, 1)])), patterns=[e]))]


def path_of(L):
    return L.lst(L.loc('p'), F)


def queue(L):
    p = path_of(L)
    i = L.loct('i')
    return members(L, p) + [('position', And(0 <= i, i <= p.n, p.n >= 1)), ('begins with the start', p.el[0] == L.start)] + expanded(L, p, i)


def around(L):
    p = path_of(L)
    i, f = L.loct('i'), L.loct('f')
    pred = L.pred('pred')
    e = edge(L, f, k_)
    return members(L, p) + [('position', And(0 <= i, i < p.n, p.el[i] == f)), ('begins with the start', p.el[0] == L.start)] + expanded(L, p, i) + [
        ('satisfying neighbours across the edges seen are marked', ForAll([k_], Implies(And(0 <= k_, k_ < L.k, nf(L, e) == 2), And(
            [Implies(pred(ef(L, e, q)), mark(L, ef(L, e, q))) for q in (0, 1)])), patterns=[e]))]


def comp_post(s):
    p = s.lst(s.result, F)
    pred = s.pred('pred')
    skip = Or(mark(s.old, s.start), Not(pred(s.start)))
    return members(s, p) + expanded(s, p, p.n) + [
        ('an unsuitable start gives the empty path', Implies(skip, p.n == 0)),
        ('otherwise the path begins with the start', Implies(Not(skip), And(p.n >= 1, p.el[0] == s.start)))]


GP = {'self': G, 'start': F, 'pred': ('Pred', 'Face')}
COMP = C('Grid.bfs_path_connectivity_component', GP, modular=True, modifies=['Face.bfs_mark'], result=('List', F), requires=comp_req, ensures=comp_post,
         loops=[LoopSpec('path', 'while', queue), LoopSpec('edges', 'Face.Edges', around, inside='path')])
NEXT = C('Grid.get_no_bfs_mark_face', {'self': G, 'pred': ('Pred', 'Face')}, modular=True, result=('RefOrNone', 'Face'), frame=[], requires=lambda s: mesh_ok(s)[1:],
         ensures=lambda s: next_post(s), loops=[LoopSpec('faces', 'Grid.Faces', lambda L: [
             ('faces seen are marked or do not satisfy', ForAll([f_], Implies(L.seen()[f_] >= 1, Or(mark(L, f_), Not(L.pred('pred')(f_)))), patterns=[L.seen()[f_]]))])])


def next_post(s):
    pred = s.pred('pred')
    r = null('Face') if s.result is None else s.result.t
    free = lambda f: And(ingrid(s.old, f), Not(mark(s.old, f)), pred(f))
    return [('an unmarked satisfying face of the grid', Or(r == null('Face'), free(r))),
            ('none only when there is none', Implies(r == null('Face'), ForAll([f_], Not(free(f_)), patterns=[mark(s.old, f_)])))]


def all_req(s):
    return mesh_ok(s) + [('start is a face of the grid', ingrid(s, s.start))]


def closed_is_all(ex, vals):
    """The closed set used for the parts is the set of all faces."""
    ex.st.pc.append(ForAll([f_], CLOSED(f_), patterns=[CLOSED(f_)]))


def whole(s, p):
    pred = s.pred('pred')
    o = s.old
    return [('each marked face once', ForAll([f_], Implies(ingrid(o, f_), p.cnt[f_] == If(mark(s, f_), 1, 0)), patterns=[p.cnt[f_]])),
            ('only satisfying faces of the grid', ForAll([f_], And(p.cnt[f_] >= 0, Implies(p.cnt[f_] >= 1, And(pred(f_), ingrid(o, f_)))), patterns=[p.cnt[f_]]))]


def rounds(L):
    return whole(L, path_of(L)) + [('start is a face of the grid', ingrid(L.old, L.loct('start')))]


CARD = z3.Function('size_of_bag', z3.ArraySort(ref_sort('Face'), z3.IntSort()), z3.IntSort())       # of a multiset of faces
PATH = C('Grid.bfs_path', GP, lemmas=lambda s: [('the length of a list is the size of its bag', s.lst(s.result, F).n == CARD(s.lst(s.result, F).cnt))], requires=all_req, setup=closed_is_all, modular=True, modifies=['Face.bfs_mark'], result=('List', F),
      ensures=lambda s: [('every satisfying face of the grid exactly once and nothing else', ForAll([f_], s.lst(s.result, F).cnt[f_] == If(And(ingrid(s.old, f_), s.pred('pred')(f_)), 1, 0),
                                                                                                   patterns=[s.lst(s.result, F).cnt[f_]]))],
      loops=[LoopSpec('clear', 'Grid.Faces', lambda L: [('faces seen are unmarked', ForAll([f_], Implies(L.seen()[f_] >= 1, Not(mark(L, f_))), patterns=[mark(L, f_)]))]),
             LoopSpec('rounds', 'while', rounds)])
CONTRACTS = [COMP, NEXT, PATH]
ABOUT = {'level_note': 'bfs_path_connectivity_component, bfs_start_face_for_next_connectivity_component and bfs_path proved for every mesh, predicate and earlier marking (reachability through an arbitrary closed set); partial correctness: termination of the traversal is not proved.',
         'bounded': ['termination of the traversals']}
