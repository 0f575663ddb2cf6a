"""What each property's check runs: harness, configuration, bounds."""
from check import Job as J
COMMON_ASSUMPTIONS = [
  'The encoding is the LLVM IR clang 18 makes of /repo/lib at -O1 with no optimisation pass run (NDEBUG, as in the Release build); gcc and optimiser are trusted, witnesses are re-executed in a native clang build',
  'Logging is compiled out; memory allocation never fails; signed overflow wraps as on x86-64',
]
CHECKS = {}
def prop(id, explain, bounds, jobs, **kw): CHECKS[id] = dict(explain=explain, bounds=bounds, jobs=jobs, **kw)
Q, T = 'quick', 'thorough'
DRAWS = 'generator draws are arbitrary 32-bit values (floats: arbitrary in [2^-33, 1]), so every seed and history is covered'
MODEL = 'automata arbitrary within [-N, N-1], weights arbitrary below max_weight, scratch buffers arbitrary'
ONESTEP = 'one presentation from an arbitrary valid pre-state; longer histories follow by induction, as the post-state is shown valid'

# ---- C01 .. C03: inference
j = []
for k in (0, 1):
    j += [J('c01', kind=k, F=3, L=2, C=8), J('c01', kind=k, F=3, L=3, C=4, weighted=0), J('c01', kind=k, F=2, L=2, C=4, batch=2), J('c01', kind=k, F=5, L=2, C=4, ct=16), J('c01', kind=k, F=2, L=4, C=4, ct=32)]
j += [J('c01', kind=0, F=f, L=2, C=4, tile=t, weighted=0) for f, t in ((15, 16), (16, 16), (17, 16), (33, 16), (32, 32), (47, 32), (64, 64), (127, 64), (128, 128), (129, 128))]
j += [J('c01', kind=1, F=f, L=2, C=4, tile=16, weighted=0) for f in (63, 64, 65, 129)]
j += [J('c01', kind=1, F=f, L=2, C=4, tile=t, symF0=f - 2, symMod=m) for f, t, m in ((1024, 16, 128), (1025, 16, 128), (1087, 16, 256), (2050, 32, 512), (4098, 64, 1024), (8193, 128, 2048))]
j += [J('c01', tier=T, kind=k, F=4, L=3, C=8, batch=2) for k in (0, 1)] + [J('c01', tier=T, kind=0, F=f, L=2, C=8, tile=t) for f in (31, 48, 65, 130, 257) for t in (16, 32, 64, 128)] + [J('c01', tier=T, kind=1, F=f, L=3, C=8) for f in (63, 64, 65, 127, 128, 129, 193)]
LRG = {'loopcap': 2000}
j += [J('c01', engine=LRG, kind=0, F=2, L=2, C=520, weighted=0, symF0=2), J('c01', engine=LRG, kind=1, F=3, L=300, C=4, symR0=1192), J('c01', engine=LRG, kind=0, F=2, L=2, C=4, batch=260, distinct=2), J('c01', tier=T, engine=LRG, kind=0, F=3, L=300, C=4, symR0=1192), J('c01', tier=T, engine=LRG, kind=1, F=2, L=2, C=520, weighted=0, symF0=2)]
prop('C01', 'decision_function on a fitted model whose automata, weights, scratch buffers and threshold are arbitrary, for an arbitrary sample; compared with the clause-vote formula', 'features, labels and clauses as listed per run; ' + MODEL + '; threshold 1..2^31-1; wide runs keep most features concrete and every m-th and the last ones symbolic; runs with 300 labels keep all but the last clauses concrete; batches up to 300 repeat their first samples', j, outside='other sizes; more than one job (C04)')

j = []
for k in (0, 1): j += [J('c02', kind=k, F=2, L=2, C=4, batch=2, wcap=4), J('c02', kind=k, F=2, L=2, C=4, batch=2, eval=0), J('c02', kind=k, F=2, L=3, C=4, weighted=0), J('c02', kind=k, F=2, L=3, C=4, eval=0), J('c02', kind=k, F=17 if k == 0 else 65, L=2, C=4, weighted=0), J('c02', tier=T, kind=k, F=3, L=3, C=8, batch=2), J('c02', tier=T, kind=k, F=2, L=4, C=4, batch=3, weighted=0), J('c02', tier=T, kind=k, F=2, L=5, C=4)]
for k in (0, 1): j += [J('c02', engine=LRG, kind=k, F=2, L=300, C=4, symR0=1196, weighted=0, eval=0), J('c02', engine=LRG, kind=k, F=2 - k, L=2, C=4, weighted=0, batch=300, distinct=2 - k, symR0=4)]
prop('C02', 'predict and evaluate on arbitrary fitted models; compared with the first maximum of the reference scores', 'features, labels, clauses and batch size as listed per run; ' + MODEL + '; given labels arbitrary 32-bit values; threshold 1..2^31-1', j, outside='other sizes')

j = []
for k in (2, 3): j += [J('c03', kind=k, F=3, C=8), J('c03', kind=k, F=3, C=8, weighted=0), J('c03', kind=k, F=2, C=4, batch=2), J('c03', kind=k, F=2, C=2, ct=16), J('c03', kind=k, F=17 if k == 2 else 65, C=4), J('c03', kind=k, F=33 if k == 2 else 129, C=4, ct=32, weighted=0), J('c03', kind=k, F=47 if k == 2 else 1087, C=4, tile=16, weighted=0, symF0=45 if k == 2 else 1085, symMod=16 if k == 2 else 256), J('c03', kind=k, F=2, C=280, weighted=0, symF0=2), J('c03', tier=T, kind=k, F=4, C=20, batch=2), J('c03', tier=T, kind=k, F=130, C=12, tile=64)]
for k in (2, 3): j += [J('c03', engine=LRG, kind=k, F=2, C=4, batch=300, distinct=2)]
prop('C03', 'predict of regressors on arbitrary fitted models; compared with the clamped weight sum of matching clauses', 'features, clauses and batch size as listed per run; ' + MODEL + '; threshold 1..2^31-1', j, outside='other sizes')

# ---- C05 .. C08, C10: one presentation
def clf(w, kinds=(0, 1)):
    j = []
    for k in kinds:
        j += [J('c08', what=w, kind=k, F=2), J('c08', what=w, kind=k, F=2, boost=1), J('c08', what=w, kind=k, F=65, symF0=63, real=1, wcap=3)]
        j += [J('c08', what=w, kind=k, F=1, L=3, ct=16), J('c08', what=w, kind=k, F=2, weighted=0, s100=100, ct=32, engine={'loopcap': 5})]
        j += [J('c08', tier=T, what=w, kind=k, F=2, L=3), J('c08', tier=T, what=w, kind=k, F=3, s100=300), J('c08', tier=T, what=w, kind=k, F=4, s100=400, boost=1, wcap=3), J('c08', tier=T, what=w, kind=k, F=5, real=1, wcap=3), J('c08', tier=T, what=w, kind=k, F=64, symF0=62, real=1, wcap=3, boost=1), J('c08', tier=T, what=w, kind=k, F=129, symF0=127, symMod=64, real=1, wcap=3), J('c08', tier=T, what=w, kind=k, F=2, C=8, wcap=3)]
    return j
def reg(w, kinds=(2, 3)):
    j = []
    for k in kinds:
        j += [J('c10', what=w, kind=k, F=2, C=4, T=2, wcap=2), J('c10', what=w, kind=k, F=2, C=2, T=4, boost=1, ct=16), J('c10', what=w, kind=k, F=2, C=4, T=2, weighted=0, loss=1, ct=32), J('c10', what=w, kind=k, F=65, C=2, T=2, symF0=64, real=1, weighted=0), J('c10', what=w, kind=k, F=[0, 0, 23, 64][k], C=2, T=2, symF0=[0, 0, 22, 63][k], real=1, wcap=2, boost=1, ct=32)]
        j += [J('c10', tier=T, what=w, kind=k, F=2, C=4, T=4, wcap=2), J('c10', tier=T, what=w, kind=k, F=2, C=4, T=6, boost=1, loss=1), J('c10', tier=T, what=w, kind=k, F=65, C=4, T=4, symF0=63, real=1, wcap=2), J('c10', tier=T, what=w, kind=k, F=3, C=2, T=3, s100=300, loss=1), J('c10', tier=T, what=w, kind=k, F=1, C=6, T=3, wcap=2)]
    return j
def init(w, kinds=(0, 1, 2, 3)): return [J('c05', engine={'loopcap': 5000 if m == 3 else 300, **({} if m == 3 else {'rng': 'stub'})}, what=w, kind=k, F=f, ct=t, mode=m, F2=g, weighted=v, **({'C': 2, 'T': 2} if k > 1 else {})) for k in kinds for f, t, m, g, v in ((2, 0, 0, 3, 1), (1, 8, 1, 2, 0), (63, 16, 2, 3, 1), (64, 32, 1, 65, 1), (65, 0, 1, 64, 0), (129, 16, 0, 3, 1), (3, 0, 3, 3, 1), (65, 8, 3, 65, 0)) if w != 5 or k > 1 or f in (1, 2, 3, 65)]
STEPB = 'features, labels, clauses per run; number of states and max_weight symbolic over their whole range for the storage width; ' + MODEL + '; ' + DRAWS
STEPO = ONESTEP + '; rejection-sampling loops are followed for a bounded number of redraws (listed as cuts); runs with real=1 use the draws of one seed and symbolic states near the block boundary'
prop('C05', 'one training presentation to classifiers and regressors with arbitrary in-range automata, both ends of every range included: every automaton stays in range and moves at most one step per draw', STEPB, clf(5) + reg(5) + init(5), outside=STEPO)
prop('C06', 'one training presentation to weighted and unweighted models: weights stay in [1, max_weight] and move exactly with the feedback of their matching clause', STEPB, clf(6) + reg(6) + init(6), outside=STEPO)
prop('C07', 'one training presentation to bit-vector models with coherent arbitrary pre-states: packed inclusion bits equal the signs afterwards and padding stays clear; also after saving and restoring arbitrary models (over models of other sizes) and after copying', STEPB, clf(7, (1,)) + reg(7, (3,)) + init(7, (1, 3)) + [J('c13', bits=1, kind=k, F=f, symF0=max(0, f - 4), F2=g, ct=t, cells=2, weighted=v, **(dict(T=2, C=2) if k > 1 else {})) for k in (1, 3) for f, g, t, v in ((3, 65, 8, 1), (65, 3, 16, 0), (64, 0, 32, 1), (130, 64, 0, 1))], outside=STEPO)
prop('C08', 'one sample presented to a classifier: every clause untouched or given exactly the feedback its vote calls for', STEPB, clf(8), outside=STEPO)
j = reg(10)
j += [J('c10', mode=1, kind=2, F=1, C=4, T=8), J('c10', mode=1, kind=3, F=1, C=4, T=8, loss=2), J('c10', mode=1, kind=2, F=1, C=4, T=8, box=1, wwin=0, wlo=3, ylo=7, ysplit=1), J('c10', mode=1, kind=3, F=1, C=4, T=32, box=1, wwin=0, wlo=2, ylo=7, yhi=8, ysplit=1), J('c10', mode=1, kind=3, F=1, C=4, T=8, box=1, wwin=0, wlo=3, ylo=4, yhi=5, ysplit=1)]
j += [J('c10', tier=T, mode=1, kind=k, F=1, C=4, T=8, loss=l) for k in (2, 3) for l in (0, 1, 2, 3)] + [J('c10', tier=T, mode=1, kind=k, F=1, C=8, T=20, loss=l) for k in (2, 3) for l in (0, 1)] + [J('c10', tier=T, mode=1, kind=k, F=1, C=4, T=8, box=1, wwin=0, wlo=3, ylo=a, yhi=a, ysplit=1) for k in (2, 3) for a in range(9)]
prop('C10', 'one sample presented to a regressor: direction of every change, and the number of updates against the documented loss', STEPB + '; number of updates: all clauses matching, weights within a window', j, outside=STEPO)

# ---- C04: jobs, tile size, storage width
E20 = {'loopcap': 20}
TAB = 'the next 40 integer and 16 float draws arbitrary and the same for both models'
j = []
for k in (0, 1): j += [J('c04', omp=1, engine=E20, what=1, kind=k, F=2, jobs2=2, **x) for x in (dict(), dict(ct2=16, tile2=32), dict(weighted=0, ct=16, ct2=32, jobs=3))]
for k in (2, 3): j += [J('c04', omp=1, engine=E20, **{**dict(what=1, kind=k, F=2, T=2, jobs2=2), **x}) for x in (dict(weighted=0, C=4 if k == 2 else 2, tile2=64), dict(wcap=2, C=2, ct2=32, jobs2=3), dict(wcap=2, C=2, loss=1, boost=1, ct=16, ct2=32))]
for k in (0, 1, 2, 3):
    j += [J('c04', omp=1, what=2, kind=k, F=3, jobs2=2, ct2=32, T=4), J('c04', omp=1, what=2, kind=k, F=17, jobs2=3, tile2=128, ct2=16, T=4, symF0=15), J('c04', what=2, kind=k, F=2, ct=0, ct2=16, N=200, T=4), J('c04', what=2, kind=k, F=2, ct=0, ct2=32, N=32767, T=4)]
    j += [J('c04', omp=1, what=0, kind=k, F=a, jobs=b, jobs2=e, tile=f, tile2=g, ct2=h, weighted=0, eval=1, L=3, C=4 if k < 2 else 12, symF0=max(0, a - 3), symMod=16) for a, b, e, f, g, h in ((17, 1, 2, 16, 64, 32), (33, 2, 7, 32, 128, 16), (65, 3, 4, 64, 16, 8))]
    j += [J('c04', tier=T, omp=1, engine=E20, what=1, kind=k, F=f, T=2, jobs2=b, tile2=t, ct2=c, boost=bt, weighted=0, C=4) for f, b, t, c, bt in ((3, 2, 32, 16, 0), (4, 3, 64, 32, 1), (2, 5, 128, 16, 1))]
    j += [J('c04', tier=T, omp=1, what=2, kind=k, F=f, jobs2=b, ct2=c, T=4, epochs=2, seed=s) for f, b, c, s in ((4, 2, 16, 1), (5, 4, 32, 99), (3, 9, 32, 12345))]
    j += [J('c04', tier=T, omp=1, what=0, kind=k, F=f, jobs2=b, tile2=t, weighted=0, C=8, symF0=f - 4, symMod=16) for f, b, t in ((15, 3, 128), (64, 5, 32), (129, 2, 64), (257, 8, 128))]
prop('C04', 'two models with equal content but different job counts, tile sizes and storage widths: predictions, scores, evaluation, one presentation and whole fits give the same results; with several jobs every pair of memory accesses of different jobs is checked for conflicts', 'features, labels, clauses, 1 to 9 jobs, tile sizes and storage widths as listed; automata, weights, sample and label arbitrary; what=1: ' + TAB + '; what=2: whole fit from one seed with an arbitrary sample', j, outside='larger models; memory-model effects below the level of conflicting accesses')

# ---- C11, C12, C21: histories
j = []
for k in (0, 1, 2, 3):
    r = dict(T=2) if k > 1 else {}
    j += [J('c11', what=0, kind=k, F=2, F2=3, rng='stub', epochs=0, ct=[8, 16, 32, 0][k]), J('c11', what=0, kind=k, F=3, F2=2, rng='stub', epochs=0, weighted=0, L=3), J('c11', what=0, kind=k, F=65, F2=64, rng='stub', epochs=0, symF0=63, C=4), J('c11', what=0, kind=k, F=3, F2=3, rng='stub', epochs=0, weighted=k % 2), J('c11', what=1, kind=k, F=2, F2=2, **r), J('c11', what=1, kind=k, F=3, F2=3, epochs=0, weighted=0, ct=8, more=1, **r)]
    j += [J('c11', what=1, kind=k, F=2, F2=3, L2=3, n=2 if k < 2 else 1, **r), J('c11', what=1, kind=k, F=2, F2=1, more=1, L2=3, seed=99, **({**r, 'weighted': 0} if k > 1 else {})), J('c11', what=1, kind=k, F=2, F2=65, weighted=0, ct=16, symF0=0 if k < 2 else 1, **r), J('c11', what=2, kind=k, F=2, n=2 if k < 2 else 1, **r)]
    j += [J('c11', tier=T, what=1, kind=k, F=f, F2=g, n=n, epochs=e, seed=s, more=1, **r) for f, g, n, e, s in ((3, 2, 2, 2, 5), (2, 64, 3, 1, 6), (4, 3, 1, 3, 7))] + [J('c11', tier=T, what=2, kind=k, F=3, n=2, epochs=2, seed=s, **r) for s in (1, 2, 3)] + [J('c11', tier=T, what=0, kind=k, F=f, F2=2, rng='stub', epochs=0, L=3, C=8) for f in (1, 63, 64, 128)]
prop('C11', 'fit after an arbitrary earlier model (other shape, arbitrary automata, weights, scratch and streams) against fit of a fresh estimator, for arbitrary data; partial fit of an unfitted estimator against fit; zero epochs with arbitrary draws', 'features, labels, samples, epochs as listed; earlier content and all data arbitrary; fits use the draws of the listed seeds, zero-epoch runs arbitrary draws', [x for x in j], outside='other seeds for fits of one or more epochs')
h = lambda w, tier=Q: [J('c11', engine=E20, what=w, kind=k, F=2, wcap=2, **x) for k in (0, 1) for x in (dict(), dict(weighted=0, boost=1), dict(L=3, real=1, idx=4990), dict(real=1, idx=0, ct=16))] + [J('c11', engine=E20, what=w, kind=k, F=2, T=2, **x) for k in (2, 3) for x in (dict(weighted=0, C=4 if k == 2 else 2), dict(wcap=2, C=2, ct=16), dict(wcap=2, real=1, idx=4990, loss=1), dict(wcap=2, real=1, idx=0))] + [J('c11', tier=T, engine=E20, what=w, kind=k, F=f, T=2, weighted=0, ct=c, C=C) for k in (0, 1, 2, 3) for f, c, C in ((3, 16, 4), (2, 32, 8), (4, 8, 4))]
HB = 'features, labels, clauses as listed; automata, weights, scratch buffers, samples and label arbitrary; ' + TAB + '; real=1 runs use real streams about to be refilled'
prop('C12', 'every query in sequence on an arbitrary model, rejected ones included: content unchanged, same question same answer, later training equal to that of an identical model that was not asked', HB, h(3), outside='longer sequences follow by induction, as each query leaves the model as it was')
prop('C21', 'copies of an arbitrary model (cloned state, estimator built from a state, moved estimator): equal, train alike, and training, refitting or destroying one leaves the other alone', HB, h(4), outside='larger models')

# ---- C14, C16: what is accepted
j = []
for k in (0, 1, 2, 3):
    r = dict(T=2, C=2, weighted=0) if k > 1 else {}
    def a(**x): return J('c14', **{'kind': k, **r, **x})
    j += [a(fitted=0, nx=1), a(fitted=0, nx=2, epochs=0), a(fitted=1, nx=1), a(fitted=0, nx=2, ny=1), a(fitted=0, nx=0), a(fitted=1, nx=0, ny=1), a(fitted=0, nx=2, Flast=1), a(fitted=1, nx=2, Flast=3, partial=1), a(fitted=1, partial=1, nx=2), a(fitted=1, partial=1, nx=1), a(fitted=1, partial=1, nx=1, Fm=3), a(fitted=1, partial=1, nx=1, F=65, Fm=64), a(fitted=1, partial=1, nx=2, ny=3), a(fitted=0, partial=1, nx=2), a(fitted=1, partial=1, nx=0), a(fitted=1, nx=2, ny=0)]
    if k in (1, 3): j += [a(fitted=0, nx=1, extra=1), a(fitted=1, partial=1, nx=2, extra=2), a(what=1, nx=1, extra=1), a(what=1, F=64, Fm=64, extra=1), a(fitted=1, partial=1, nx=1, F=63), a(fitted=1, partial=1, nx=1, F=64)]
    if k < 2: j += [a(fitted=0, nx=1, ask=1), a(fitted=0, nx=2, ask=-1)]
    j += [a(what=1, nx=1), a(what=1, nx=2), a(what=1, nx=0), a(what=1, nx=0, ny=1), a(what=1, nx=2, Flast=3), a(what=1, nx=1, Fm=3), a(what=1, nx=1, Fm=1), a(what=1, fitted=0, nx=1), a(what=1, nx=2, ny=1)]
    j += [a(tier=T, fitted=1, partial=p, nx=n, F=f, epochs=e) for p in (0, 1) for n in (1, 2, 3) for f in (1, 3, 66) for e in (0,)]
prop('C14', 'training and queries given arbitrary, possibly malformed data on fitted and unfitted estimators: accepted exactly when well formed, and a rejection leaves the model as it was', 'up to 3 samples of arbitrary content (every byte value, every block value), labels arbitrary 32-bit values (too large ones: a listed selection when they appear in a message); features, labels per run; fitted models arbitrary', j, outside='accepted calls run zero epochs here (training itself is C05 to C11)')
j = []
for k in (0, 1): j += [J('c16', kind=k, rng='stub', later=0, ymax=2, askhi=4), J('c16', kind=k, later=0, n=3, ymax=1, asklo=0, askhi=3, weighted=0, C=8), J('c16', kind=k, n=1, ymax=2, asklo=1, askhi=4), J('c16', kind=k, n=1, later=2, ymax=1, asklo=2, askhi=2, weighted=0, ct=16), J('c16', kind=k, before=1, n=1, ymax=1, asklo=1, askhi=3, F2=65 if k else 17), J('c16', kind=k, n=1, epochs=1, partial=1, ymax=2, asklo=2, askhi=3, F=65 if k else 17, symF0=64 if k else 16), J('c16', tier=T, kind=k, n=2, ymax=5, asklo=-1, askhi=9), J('c16', tier=T, kind=k, n=3, ymax=3, asklo=0, askhi=5, epochs=1, later=2)]
j += [J('c16', engine=LRG, kind=0, F=1, n=1, ybase=298, ymax=1, asklo=298, askhi=301, y2last=2, C=4), J('c16', engine=LRG, kind=1, F=2, n=1, ybase=127, ymax=2, asklo=100, askhi=100, y2last=1, C=4, weighted=0), J('c16', tier=T, engine=LRG, kind=1, F=1, n=1, ybase=298, ymax=1, asklo=298, askhi=301, y2last=2, C=4)]
for k in (2, 3): j += [J('c16', kind=k, T=2, C=a, F=f, n=1, ct=b, weighted=w, symF0=max(0, f - 2), **x) for a, f, b, w, x in ((2, 2, 8, 1, dict(epochs=1)), (4, 65 if k == 3 else 17, 16, 0, dict(before=1, F2=3)), (6, 1, 32, 1, dict(later=1)), (20, 64, 8, 0, dict(partial=1)), (2, 3, 8, 1, dict(rng='stub', later=0)))]
prop('C16', 'fit and later partial fits of all estimators with arbitrary labels, requested label counts and data, fresh or fitted before: shape of model, parameters and answers', 'features, clauses per run; labels 0..5 (some runs up to 299), requested labels -1..9 (301), the label count passed later any 32-bit value; up to 3 samples of arbitrary content', j, outside='higher label numbers (the model would only be larger)')

# ---- C17: presentations
K17 = dict(s100=100, boost=1, T=100000, N=127)
j = []
for k in (0, 1): j += [J('c17', kind=k, **{**K17, 'L': l, 'n': n, 'F': f, 'y': y, **x}) for l, n, f, y, x in ((3, 3, 3, 12, dict()), (2, 3, 3, 101, dict(draws=5, weighted=0, ct=16)), (4, 2, 3, 31, dict()), (5, 2, 3, 40, dict(C=8)), (3, 3, 3, 11, dict(draws=5)), (3, 3, 4, 220, dict(epochs=2)), (2, 1, 3, 1, dict(epochs=3)), (3, 2, 3, 21, dict(epochs=0)), (3, 4, 4, 2101, dict(draws=4, ct=32)))]
for k in (0, 1): j += [J('c17', tier=T, kind=k, **{**K17, 'L': l, 'n': n, 'F': f, 'y': y, **x}) for l, n, f, y, x in ((7, 3, 3, 651, dict()), (3, 4, 4, 2110, dict(draws=6)), (9, 2, 3, 80, dict(epochs=2)), (4, 5, 5, 32103, dict(draws=5)), (3, 3, 3, 210, dict(draws=3, epochs=5)))]
j += [J('c17', engine=LRG, tier=Q if k == 0 else T, kind=k, **{**K17, 'L': 130, 'n': 1, 'F': 1, 'C': 4, 'yfrom': 128, 'draws': 1}) for k in (0, 1)] + [J('c17', tier=T, engine=LRG, kind=k, **{**K17, 'L': 20, 'n': 2, 'F': 2, 'C': 4, 'yfrom': 9, 'draws': 3}) for k in (0, 1)]
R17 = dict(s100=100, boost=1, T=2, N=127, weighted=0, C=2, loss=1)
for k in (2, 3): j += [J('c17', kind=k, **{**R17, 'n': n, 'F': f, 'y': y, **x}) for n, f, y, x in ((3, 3, 20, dict(draws=3)), (3, 3, 222, dict(epochs=2, draws=1)), (4, 4, 2010, dict(draws=1)), (2, 3, 2, dict(epochs=3, draws=1, ct=16)), (1, 3, 0, dict(epochs=0)), (6, 6, 202020, dict(draws=1)))]
for k in (2, 3): j += [J('c17', tier=T, kind=k, **{**R17, 'n': n, 'F': f, 'y': y, **x}) for n, f, y, x in ((4, 4, 2010, dict(draws=4)), (5, 5, 20202, dict(draws=3, epochs=4)), (8, 8, 20220202, dict(draws=2)))]
prop('C17', 'training whose automata count presentations (unit-vector samples, feedback always granted, s = 1): each sample once per epoch with its own label, other labels valid and different; the solver must also find draws that pair every sample with every other label', 'up to 6 samples, 5 labels (one run: 130), 3 epochs (thorough: more); the first draws of the epoch (other labels, then the order of the samples) arbitrary as far as listed (draws), the rest of one seed', j, outside='longer data sets; the distribution of the other label')

# ---- C09: granting feedback
K9 = dict(F=1, s100=100, boost=1, full=2)
j = []
for k in (0, 1): j += [J('c09', kind=k, **{**K9, 'T': t, **x}) for t, x in ((1, dict(y=k)), (2, dict(odd=1)), (15, dict(odd=k)), (2**24 + 1, dict(odd=1 - k)), (2**30, dict(odd=k)), (2**31 - 1, dict(odd=1 - k)), (4, dict(weighted=0, full=1)), (3, dict(weighted=0, C=8, full=0, L=3)))]
for k in (0, 1): j += [J('c09', mode=1, kind=k, **{**K9, 'full': 0, 'nw': 2, 'T': t, **x}) for t, x in ((7, dict()), (100, dict(L=3, weighted=0, boost=0)))]
for k in (0, 1): j += [J('c09', tier=T, kind=k, **{**K9, 'T': t, **x}) for t, x in [(t, dict(odd=o, y=y, nw=6)) for t in (1, 3, 10, 255, 4097, 2**31 - 1) for o in (0, 1) for y in (0, 1)] + [(5, dict(full=1, C=8, weighted=0)), (49, dict(full=1, x=0))]]
for k in (0, 1): j += [J('c09', tier=T, mode=1, kind=k, **{**K9, 'T': t, 'nw': 2, **x}) for t, x in ((7, dict()), (30, dict(C=8, full=0)), (10, dict(L=3, full=0)))]
prop('C09', 'one sample presented to a classifier in which every granted feedback shows (s = 1, one feature): all draws equal to one arbitrary value decides the probability each clause is granted; two histories differing in one arbitrary draw differ in one clause at most', 'clauses empty, matching or not matching, weights 2, T/2+1, T-1, T (T+1, 3); thresholds 1 .. 2^31-1 as listed; the draw any float in [2^-33, 1]; tolerance 2^-20 relative', j, outside='quality of the generator itself')

# ---- C18: number of automata touched
NM = {'nomerge': 1}
def f32bits(x): import struct; return struct.unpack('<I', struct.pack('<f', x))[0]
S18 = (1.0, 1.0000001, 1.25, 1.5, 2.0, 2.7, 3.0, 3.9, 7.0, 10.0, 41.0, 1000.0, 16777216.0, 3e38)
j = []
for i, s in enumerate(S18):
    for k in (0, 1): j += [J('c18', engine=NM, kind=k, F=f, C=8, T=100000, sbits=f32bits(s)) for f in ((1, 41) if (i + k) % 2 else (5, 128))]
    for k in (2, 3): j += [J('c18', engine=NM, kind=k, F=f, C=2, T=100, loss=1, weighted=0, sbits=f32bits(s), shift=(i + k) // 2 % 2) for f in ((2,) if (i + k) % 2 else (65,))]
j += [J('c18', engine=NM, kind=k, F=33, C=8, T=100000, boost=1, s100=330, ct=16) for k in (0, 1)] + [J('c18', engine=NM, kind=k, F=33, C=2, T=100, loss=1, weighted=0, boost=1, s100=330, ct=32, shift=1) for k in (2, 3)]
j += [J('c18', engine={'loopcap': 6}, kind=k, mode=1, F=2, C=4, T=100000, s100=s, shift=h) for k in (0, 1) for s in (150, 100) for h in (0, 1)]
j += [J('c18', engine=NM, kind=k, mode=2, F=1, C=4, T=100000, shift=1) for k in (0, 1)]
j += [J('c18', tier=T, engine=NM, kind=k, F=f, C=8, T=100000, sbits=f32bits(s)) for k in (0, 1) for s in S18 for f in (3, 63, 64, 100, 300)] + [J('c18', tier=T, engine=NM, kind=k, F=f, C=2, T=100, loss=1, weighted=0, sbits=f32bits(s), shift=h) for k in (2, 3) for s in S18 for f in (1, 7, 64, 200) for h in (0, 1)]
j += [J('c18', tier=T, engine=NM, kind=k, mode=2, F=f, C=4, T=100000, shift=h) for k in (0, 1) for f in (1, 2, 3, 4) for h in (0, 1)] + [J('c18', tier=T, engine={'loopcap': 6}, kind=k, mode=1, F=f, C=4, T=100000, s100=s) for k in (0, 1) for f, s in ((3, 150), (3, 200), (4, 250))]
prop('C18', 'one recognition of matching and non-matching clauses with automata in mid-range, all four estimators: number of automata drawn per polarity against floor and ceiling of F/s, and the draw that decides between them against the fraction', 'F from 1 to 128 (thorough 300); s as listed from 1 to 3e38, and every float in [1, 1000] for F = 1 (thorough up to 4); draws of one arbitrary size cycling over the features (20-bit resolution), and arbitrary draws for F = 2 (thorough up to 4) with a bounded number of redraws', j, outside='more than 2^24 features')

# ---- C19: random streams
j = [J('c19', what=0, kind=0, mt=1, pos=p) for p in (0, 1, 4988, 4991)] + [J('c19', what=0, kind=1, pos=p) for p in (1, 2500, 4988, 4991)]
j += [J('c19', what=1, kind=k, cell=c, inmt=m, pos=p) for k in (0, 1) for c, m, p in ((4991, 0, 1), (4991, 0, 4991), (1, 0, 1), (17, 0, 16), (2500, 0, 2400), (8, 1, 0), (4991, 1, 77), (2600, 1, 4991), (623, 1, 5))]
j += [J('c19', what=2, kind=0), J('c19', what=2, kind=1, draw=0)]
j += [J('c19', what=3, kind=0, pos=p) for p in (1, 0, 4991)] + [J('c19', what=4, kind=1)]
j += [J('c19', tier=T, what=0, kind=0, mt=1, pos=p, k=40) for p in (0, 4980, 2000)] + [J('c19', tier=T, what=1, kind=k, cell=c, inmt=m, pos=p) for k in (0, 1) for c, m, p in [(x, 0, 3) for x in range(4, 4991, 333)] + [(x, 1, 9) for x in range(8, 4991, 333)]] + [J('c19', tier=T, what=4, kind=1, k=64)]
prop('C19', 'generators with arbitrary content: copying, assigning, moving, comparing, seeding and bounded draws of the integer and float generators', 'the whole generator state of the integer generator arbitrary, float results arbitrary around the position; every 32-bit seed; every pair of bounds; comparison: one arbitrary cell at the listed places; positions at the start, the middle and both sides of the regeneration; 8 draws per generator (thorough 40)', j, outside='the statistical quality of the streams')

# ---- C20: containers
BIG = {'loopcap': 4000}
j = []
for w, ns in ((8, (1, 7, 8, 9, 17)), (16, (15, 16, 17, 33)), (32, (1, 31, 32, 33, 65)), (64, (1, 2, 63, 64, 65, 127, 128, 129))):
    for i, n in enumerate(ns): j += [J('c20', what=0, w=w, n=n, **{'from': i % 6}), J('c20', what=0, w=w, n=n, **{'from': (i + 3) % 6}, align=(64, 16, 128)[i % 3])]
j += [J('c20', what=0, w=w, n=n, blocks=b, **{'from': 4}) for w, n, b in ((64, 65, 3), (64, 200, 2), (64, 64, 2), (8, 9, 2), (32, 0, 2), (16, 40, 2))] + [J('c20', what=0, w=64, n=0), J('c20', what=0, w=64, n=0, **{'from': 3}), J('c20', what=0, w=64, n=65, steps=2)]
for w, ns in ((8, (1, 8, 65)), (16, (17, 127)), (32, (31, 33, 64)), (64, (1, 63, 64, 65, 128, 129))):
    for i, n in enumerate(ns): j += [J('c20', what=1, w=w, n=n, rows=(3, 2, 1)[i % 3], align=(64, 16, 128)[i % 3])]
j += [J('c20', what=1, w=64, n=n, rows=2, op=o, engine=BIG) for n, o in ((511, 0), (512, 1), (513, 2), (513, 5))]
for w, ns in ((8, (1, 15, 16, 17, 64, 65)), (16, (1, 31, 32, 33)), (32, (1, 15, 16, 17)), (64, (7, 8, 9))):
    for i, n in enumerate(ns): j += [J('c20', what=2, w=w, n=n, rows=(3, 2, 1)[i % 3], align=(64, 16, 128)[i % 3])]
j += [J('c20', what=3, shape=s, off=o, off2=p) for s, o, p in ((0, 0, 3), (0, 5, 8), (1, 1, 2), (2, 2, 1), (3, 1, 0))]
j += [J('c20', tier=T, what=0, w=w, n=n, steps=2, **{'from': f}, engine=BIG) for w in (8, 16, 32, 64) for n in (64, 65, 256, 257) for f in (0, 1, 2, 3)] + [J('c20', tier=T, what=1, w=w, n=n, rows=r, steps=2, engine=BIG) for w in (8, 32, 64) for n in (66, 257) for r in (1, 4)]
prop('C20', 'bit vectors (five kinds of construction), bit matrices and row views, numeric matrices and aligned arrays with arbitrary contents: every operation at an arbitrary index, all elements, padding, sizes, alignment, copies, moves and equality compared with plain arrays', 'sizes as listed per run around the block boundaries of 8, 16, 32 and 64 bit blocks and 16, 64 and 128 byte alignments; contents, index, value and operation arbitrary; one operation from an arbitrary content (thorough: two)', j, outside='sizes beyond 513; indices beyond the size')

# ---- C15: parameters
ST = {'rng': 'stub'}
j = []
for k in (0, 1, 2, 3):
    j += [J('c15', engine=ST, mode=0, how=h, kind=k, ctl=4, lol=l) for h, l in ((0, 3), (1, 2), (2, 5), (3, 3), (4, 4))] + [J('c15', engine=ST, mode=0, how=h, kind=k, ctl=5, lol=l) for h, l in ((1, 3), (4, 2), (3, 5))] + [J('c15', engine=ST, mode=0, how=4, kind=k, ctl=3, lol=3), J('c15', mode=0, how=5, kind=k)]
    j += [J('c15', mode=1, kind=k, est=1, slen=4)]
for k, n in ((0, 12), (2, 15)):
    j += [J('c15', mode=1, kind=k, key=i, slen=4) for i in range(n)] + [J('c15', mode=1, kind=k, key=10, slen=s) for s in (3, 5)] + [J('c15', mode=1, kind=k, two=1, slen=5, key=i, type=t) for i, t in ((2, 1), (11, 1), (4, 3), (10, 5))] + [J('c15', mode=2, kind=k, klen=l) for l in (1, 2)]
j += [J('c15', mode=1, kind=2, key=12, slen=s) for s in (2, 3, 5)]
j += [J('c15t', mode=0, kind=0, key=0, digits=2), J('c15t', mode=0, kind=2, key=0, digits=2), J('c15t', mode=0, kind=0, key=1, digits=4, neg=1), J('c15t', mode=0, kind=0, key=7, digits=1, frac=1), J('c15t', mode=0, kind=0, key=2, digits=6), J('c15t', mode=0, kind=0, key=11, digits=3), J('c15t', mode=1, kind=0, len=4), J('c15t', mode=1, kind=2, key=12, len=3), J('c15t', mode=2, kind=0, bytes=1), J('c15t', mode=2, kind=0, bytes=2, engine={'nomerge': 1})]
j += [J('c15t', mode=3, kind=0, pos=p, **({'must': 1} if p in (0,) else {})) for p in (0, 5, 11, 24)]
j += [J('c15t', tier=T, mode=3, kind=k, pos=p) for k in (0, 2) for p in range(30)] + [J('c15t', tier=T, mode=0, kind=0, key=i, digits=n, frac=f, neg=g) for i in (0, 1, 4, 7, 11) for n, f, g in ((1, 0, 0), (3, 0, 1), (6, 0, 0), (2, 1, 0))] + [J('c15t', tier=T, mode=2, kind=0, bytes=3, engine={'nomerge': 1})] + [J('c15t', tier=T, mode=0, kind=0, key=11, digits=10)]
prop('C15', 'parameters and estimators built from JSON values of every type under every key (the parser replaced by the document), from JSON text through the real parser, and from named arguments in several orders: accepted exactly when in range, and kept as given', 'values: every 64-bit integer, every finite double, both booleans, strings of the listed lengths (printable), null, array, object, under one key (with a good value under another); unknown keys of up to 2 characters; text: numbers of the listed digits, strings, every text of 1 and 2 bytes, one arbitrary byte in a good text; named arguments: all values arbitrary at once', j, outside='longer texts; the JSON library beyond these texts')

# ---- C13: JSON
j = []
for k in (0, 1, 2, 3):
    r = dict(T=2, C=2) if k > 1 else {}
    j += [J('c13', kind=k, F=3, ct=[8, 16, 32, 8][k], **r), J('c13', kind=k, F=3, L=3, ct=[32, 8, 16, 16][k], F2=65, C=8, at=4980), J('c13', kind=k, F=[17, 65, 17, 65][k], ct=[16, 32, 8, 32][k], F2=3, symF0=[15, 62, 14, 63][k], weighted=0), J('c13', kind=k, F=64, ct=0, N=[127, 128, 32767, 32768][k], F2=65, symF0=62)]
    j += [J('c13', engine=E20, what=1, kind=k, F=2, **{**dict(wcap=2), **r, **x}) for x in (dict(), dict(weighted=0, boost=1, F2=3, ct=16), dict(real=1, idx=4990, F2=2, loss=1, ct=32), dict(other=1, F2=4), dict(other=2, F2=2, weighted=0))]
    j += [J('c13', tier=T, kind=k, F=f, ct=t, F2=g, symF0=max(0, f - 6), at=a, cells=200, **r) for f, t, g, a in ((1, 8, 2, 1), (63, 16, 0, 2000), (128, 32, 64, 4900), (129, 8, 3, 600))] + [J('c13', tier=T, engine=E20, what=1, kind=k, F=3, ct=t, F2=2, weighted=0, **r) for t in (8, 16, 32)]
prop('C13', 'save and restore of arbitrary fitted models, over fresh states and over states of other models: parameters with their types, automata, weights, inclusion bits and random streams equal, answers and one further presentation equal', 'features, labels, clauses, storage width per run; automata, weights, scratch, every parameter within its range (every seed, every finite specificity), stream positions and a window of stream cells arbitrary; ' + TAB + ' for the presentation; the text between is stood for by the document, passed through what JSON text can carry; native re-runs use the real text', j, outside='number formatting and parsing inside the JSON library (C15 decides parsing of short texts); unfitted models')
