"""the contract of _compute_constraints used by C15 and C16: index pairs and quadruples are products of the retained indices"""
from .C17 import *

UNITS = [UnitSpec('C17q/index lists: ' + name_of(k, s), scenario(k, s, True), dom=DOM, nonempty=6, limit=120)
         for k, s in family() if k == ('list',) * 4 or k in ('PINNED', 'CLAMPED')]
