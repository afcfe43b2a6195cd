"""The gross-error probabilities are interpreted for all inputs (error function and square root
uninterpreted) and compared with Bayes' rule written out in the reference definition; inputs outside
the stated domain must be rejected."""
from ..equiv import *


def check(c):
    R = lambda *ns: (lambda r: [real(n) for n in ns])
    c.equiv('qc.p_data_given_good', 'stat.good', R('x', 'q', 'hi', 'lo', 'mu', 'sigma'))
    c.equiv('qc.p_data_given_gross', 'stat.gross', R('q', 'hi', 'lo'))
    c.equiv('qc.p_gross', 'stat.posterior', R('p0', 'q', 'hi', 'lo', 'x', 'mu', 'sigma'))
