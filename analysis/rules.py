"""The rule table: property -> [(rule name, function(ctx, report, tier))]."""
import rules_exit as X
import rules_state as S
import rules_capi as A
import rules_cabi as B
import rules_audio as D
import rules_hist as H
import rules_misc as Z
import rules_tp as I
import rules_unsafe as U

RULES = {
    'C01': S.C01,
    'C02': S.C02,
    'C03': S.C03 + Z.C03,
    'C04': X.C04 + [('several instances', A.c04_multi)],
    'C05': D.C05,
    'C06': X.C06,
    'C07': D.C07,
    'C08': X.C08,
    'C09': X.C09 + [('history bounds: ' + n, f) for n, f in H.C20],
    'C10': D.C10,
    'C11': D.C11,
    'C12': A.C12 + [('several instances: modes', A.c04_multi), ('several instances: values', H.c21_multi)],
    'C13': B.C13,
    'C14': B.C14,
    'C15': B.C15,
    'C16': U.C16,
    'C17': U.C17,
    'C18': D.C18,
    'C19': D.C19,
    'C20': H.C20,
    'C21': H.C21,
    'C22': H.C22,
    'C23': S.C23,
    'C24': D.C24,
    'C25': D.C25,
    'C26': H.C26,
    'C27': A.C27 + [('lists of instances', H.c21_multi)],
    'C28': I.C28,
    'C29': Z.C29,
    'C30': Z.C30,
    'C31': Z.C31,
}
FLOOR = {'C13': 70, 'C14': 12, 'C15': 150, 'C01': 30, 'C02': 60, 'C03': 1000, 'C23': 200, 'C04': 16, 'C06': 100, 'C08': 30, 'C09': 200, 'C12': 600, 'C27': 20,
         'C05': 100, 'C07': 600, 'C10': 60, 'C11': 1800, 'C18': 5000, 'C19': 180, 'C24': 1100, 'C25': 120, 'C20': 100, 'C21': 60, 'C22': 100, 'C26': 12, 'C16': 400, 'C17': 300, 'C28': 40, 'C29': 10, 'C30': 25, 'C31': 60}
EXPLAIN = {}
ASSUME = [
    'rustc nightly MIR of the lib target with feature capi and default features is what is shipped',
    'models of core/alloc/smallvec/dasp functions used by the crate (analysis/models.py)',
    'integer arithmetic is exact where the analysis proves no wrap; floating point is uninterpreted apart from constants',
    'obligations the analysis cannot decide are counted as undecided and do not raise an alarm',
]
from texts import T as _T
TECH = {k: v[0] for k, v in _T.items()}
DEFNOTE = ('Abstract interpretation of the monomorphised MIR of the current tree over symbolic inputs: each obligation counted as discharged holds for '
           'every value of what is symbolic in it (within the configurations stated); violations carry a concrete abstract counterexample; obligations the analysis cannot '
           'decide are reported as undecided in the evidence and stay quiet. Trusts rustc\'s MIR, the models of core/alloc/smallvec/dasp functions and the '
           'invariant that an analyzer has the field shapes that new() and its own methods give it.')
NOTE = {k: v[1] + ' ' + DEFNOTE for k, v in _T.items()}
EXPLAIN.update({k: v[1] for k, v in _T.items()})
