"""P11: what is documented as input is never written, not even temporarily.
Points-to and effect summaries (engine/pts.py) of every function; for every pointer parameter documented as [in] the summary of the
function, including everything it calls, must contain no store to the memory the parameter points to.
A store through a pointer that can only point there is a violation; through one that may also point elsewhere it is left undecided."""
from engine.fw import *
from engine.pts import Pts

LEVEL = 'proof'
ASSUME = ['distinct pointer arguments do not overlap', 'pointers are not forged from integers']
# function: ordinals of the pointer parameters (by-value structs not counted) that are inputs, with their documented names
TAB = {}
for p in ('r2d', 'r3d', 'rNd'):
    TAB[p + '_clip'] = {1: 'planes'}
    TAB[p + '_reduce'] = {0: 'poly'}
    TAB[p + '_is_good'] = {0: 'poly'}
    TAB[p + '_print'] = {0: 'poly'}
    TAB[p + '_affine'] = {1: 'mat'}
    TAB[p + '_init_box'] = {1: 'rbounds'}
    TAB[p + '_get_ibox'] = {0: 'poly'}
    TAB[p + '_clamp_ibox'] = {2: 'clampbox'}
    if p != 'rNd':
        TAB[p + '_split'] = {0: 'inpolys'}
        TAB[p + '_poly_center'] = {0: 'poly'}
        TAB[p + '_box_faces_from_verts'] = {1: 'rbounds'}
TAB.update({'r2d_rasterize': {0: 'poly', 1: 'ibox'}, 'r3d_voxelize': {0: 'poly', 1: 'ibox'}, 'rNd_voxelize': {0: 'poly', 1: 'ibox'},
            'r2d_init_poly': {1: 'vertices'}, 'r3d_init_poly': {1: 'vertices', 2: 'faceinds', 3: 'numvertsperface'}, 'r3d_init_tet': {1: 'verts'}, 'rNd_init_simplex': {1: 'verts'},
            'r3d_orient': {0: 'verts'}, 'rNd_orient': {0: 'verts'}, 'r2d_poly_faces_from_verts': {1: 'vertices'}, 'r3d_tet_faces_from_verts': {1: 'verts'},
            'r3d_poly_faces_from_verts': {1: 'vertices', 2: 'faceinds', 3: 'numvertsperface'}, 'r3d_init_brep': {0: 'poly'}, 'r3d_print_brep': {0: 'brep'},
            'r3d_free_brep': {}})


def one(rec, P, fn):
    need(fn)
    f = P.funcs[fn]
    ptrs = [i for i, (ty, nm, at) in enumerate(f.params) if ty.k == 'p' and 'byval' not in at and 'sret' not in at]
    for o, nm in TAB[fn].items():
        if o >= len(ptrs):
            rec.und('%s: input %s is not written' % (fn, nm), 'the function has %d pointer parameters' % len(ptrs)); continue
        i = ptrs[o]
        hits = [(obj, w) for obj, why in P.sum[fn].items() if obj in (('arg', i), ('argd', i)) for w in why]
        sure = [w for obj, w in hits if not w[2].endswith('?')]
        cl = '%s: input %s is not written' % (fn, nm)
        if sure:
            w = sorted(sure)[0]
            rec.fail(cl, where(w[0], w[1]), '%s: the input %s is written by the %s at line %d of %s' % (fn, nm, w[2], w[1], w[0]))
        elif hits: rec.und(cl, 'may be written at %s:%d' % hits[0][1][:2])
        else: rec.ok(cl)
    rec.count('functions_analysed', len(P.reach(fn) & set(P.funcs)))


def everything(rec):
    P = Pts(Env.mods)
    for fn in sorted(TAB):
        try: one(rec, P, fn)
        except Anchor as e: rec.und('%s: inputs are not written' % fn, str(e))
    unk = {}
    for fn in sorted(TAB):
        for w in P.sum.get(fn, {}).get(('any',), ()): unk.setdefault(w, fn)
    for w, fn in unk.items(): rec.und('%s: stores through unknown pointers' % fn, '%s:%d' % w[:2])
    if len([f for f in TAB if f in P.funcs]) < 20: raise Anchor('most of the interface is gone')


ob('inputs', 120)(everything)
