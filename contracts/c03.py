from .decomp import *
from .decomp import CONTRACTS as BASE, f_, z_, i_
from . import c04

CONTRACTS = BASE + [c04.LINEAR, c04.metric('first'), c04.SPLIT, c04.HIER] + c04.FAR
ABOUT = {'level_note': 'decompose_mono, decompose_random, decompose_linear, split_zone, decompose_hierarchical and decompose_farhat are proved for every mesh and every number of zones: a partition of the faces, fixed zones kept, requested numbers.',
         'bounded': ['the level structure of the hierarchical decomposition (2^levels zones)', 'the choice of the axis metric (proved for one axis as an arbitrary function of the face; the others by symmetry)'],
         'trusted': ['number of faces not assigned yet is a finite cardinality (assigning one lowers it by one)', 'double counting of the faces of the fixed zones', 'the length of a list of distinct faces is the size of its set']}
