"""A stack of runs stands for the list of its values: every operation and every
way of walking it."""
import P13
import runs
import vlib

MINOBS = 2000
H = vlib.VERIF + '/harness/P21.cc'
INLINE = P13.INLINE + ['inc_stack<', '^h_']


def check(c):
    c.rule('pushing, popping, the ends, the size: from any values and lengths of the runs the stack stays the list it stands for')
    c.rule('walking, skipping, skipping within a run and comparing places agree with the list, for any values of the runs')
    c.rule('no path uses a run which is not there')
    c.part(runs.lemma, c, H, INLINE)
    c.part(runs.walks, c, H, INLINE)
