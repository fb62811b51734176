"""Which harnesses decide which property, and within which bounds."""
import fnmatch
import itertools
import random
from engine.driver import Job
from . import elems, fields, roots, mutate, memory, cmutate, cxx, threads, text, printing, streams, pyth

ASSUME = [
    'FLINT/Arb/GMP functions behave as documented (each is replaced by a contract over exact integers, rationals and reals; see engine/flint.py, engine/nf.py)',
    'memory allocation succeeds',
    'arguments satisfy the documented preconditions (irreducible polynomial, divisor not zero, initialised objects, valid enclosures)',
]

SCALARS = ('si', 'ui', 'fmpz', 'fmpq')


def elem_jobs(tier):
    J = {}
    degs = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5)

    def add(group, name, make, opts=None, budget=None, bounds=None, weight=1):
        J.setdefault(group, []).append(Job(name, make, opts, 'c', budget or (100 if tier == 'quick' else 1200), bounds, weight=weight))
    for d in degs:
        for n in elems.ARITH:
            add('arith', '%s/deg%d' % (n, d), lambda p, d=d, n=n: elems.h_arith(p, d, n), bounds={'degree': d}, weight=3)
        for e in ((0, 1, 2, 3, 5, None) if tier == 'quick' else (0, 1, 2, 3, 4, 5, 6, 7, 8, 12, None)):
            add('arith', 'pow%s/deg%d' % ('_any' if e is None else e, d), lambda p, d=d, e=e: elems.h_pow(p, d, e), bounds={'degree': d, 'exponent': 'any > 12' if e is None else e})
        for k in ('sgn', 'elem') + SCALARS:
            add('cmp', 'cmp_%s/deg%d' % (k, d), lambda p, d=d, k=k: elems.h_cmp(p, d, k), opts={'refine_bound': 2 if tier == 'quick' else 4}, bounds={'degree': d, 'refinements': 2 if tier == 'quick' else 4}, weight=2)
        for k in ('elem',) + SCALARS:
            add('pred', 'equal_%s/deg%d' % (k, d), lambda p, d=d, k=k: elems.h_equal(p, d, k), bounds={'degree': d})
        for k in elems.PRED:
            add('pred', '%s/deg%d' % (k, d), lambda p, d=d, k=k: elems.h_pred(p, d, k), bounds={'degree': d})
        for k in ('floor', 'ceil'):
            add('round', '%s/deg%d' % (k, d), lambda p, d=d, k=k: elems.h_round(p, d, k), opts={'refine_bound': 2 if tier == 'quick' else 4}, bounds={'degree': d, 'refinements': 2 if tier == 'quick' else 4}, weight=8)
        add('fdiv', 'fdiv/deg%d' % d, lambda p, d=d: elems.h_fdiv(p, d), opts={'abstract_prod': True}, bounds={'degree': d}, weight=9)
        nq = 3 if tier == 'quick' else 5
        add('cfrac', 'cfrac/deg%d' % d, lambda p, d=d: elems.h_cfrac(p, d, nq), bounds={'degree': d, 'quotients': nq}, weight=6)
        for k in ('init', 'zero', 'one', 'gen', 'set_si', 'set_ui', 'set_fmpz', 'set_fmpq', 'set_mpz', 'set_mpq', 'set', 'set_nf_elem', 'set_fmpq_poly'):
            add('set', '%s/deg%d' % (k, d), lambda p, d=d, k=k: elems.h_set(p, d, k), bounds={'degree': d})
        add('eval', 'set_evaluation/deg%d' % d, lambda p, d=d: elems.h_set(p, d, 'set_evaluation'), bounds={'degree': d}, weight=5)
        add('eval', 'check_embedding/deg%d' % d, lambda p, d=d: elems.h_check_embedding(p, d), bounds={'degree': d})
        add('cond', 'cond/deg%d' % d, lambda p, d=d: elems.h_cond(p, d), bounds={'degree': d}, weight=6)
        for r in range(5):
            add('conv', 'get_d%d/deg%d' % (r, d), lambda p, d=d, r=r: elems.h_getd(p, d, r), opts={'loop_bound': 4}, bounds={'degree': d, 'refinements': 2}, weight=7)
        for pr in ((2, 20) if tier == 'quick' else (2, 20, 53, 128)):
            add('conv', 'get_arb%d/deg%d' % (pr, d), lambda p, d=d, pr=pr: elems.h_getarb(p, d, pr), opts=elems.getarb_opts(pr), bounds={'degree': d, 'precision': pr, 'refinements': 2}, weight=4)
    return J


def field_jobs(tier):
    J = {}
    degs = (2, 3) if tier == 'quick' else (2, 3, 4, 5, 6)

    def add(group, name, make, opts=None, budget=None, bounds=None, weight=1):
        J.setdefault(group, []).append(Job(name, make, opts, 'c', budget or (120 if tier == 'quick' else 1500), bounds, weight=weight))
    lb = 2 if tier == 'quick' else 3
    for d in degs:
        add('steps', 'newton/deg%d' % d, lambda p, d=d: fields.h_newton(p, d), bounds={'degree': d})
        add('steps', 'bisect/deg%d' % d, lambda p, d=d: fields.h_bisect(p, d), bounds={'degree': d})
        add('refine', 'refine/deg%d' % d, lambda p, d=d: fields.h_refine(p, d, False, lb), opts={'loop_bound': 12}, bounds={'degree': d, 'iterations': lb}, weight=5)
        add('refine', 'refine_step/deg%d' % d, lambda p, d=d: fields.h_refine(p, d, True, 1), opts={'loop_bound': 12}, bounds={'degree': d, 'iterations': 1}, weight=5)
        add('embeddings', 'embeddings/deg%d' % d, lambda p, d=d: fields.h_embeddings(p, d), bounds={'degree': d, 'exponents of the intervals': '-3, 0, 5'}, weight=3)
        add('pcond', 'cond_poly/deg%d' % d, lambda p, d=d: elems.h_cond(p, d, 'poly'), bounds={'degree': d}, weight=2)
    for n in ((1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 8)):
        add('nth', 'nth_root/%d' % n, lambda p, n=n: fields.h_nth_root(p, n), bounds={'n': n})
    for d in (1,) + degs:
        for w in ('vec', 'poly', 'poly_alias', 'fmpq', 'fmpq_alias'):
            add('polyeval', 'polyeval_%s/deg%d' % (w, d), lambda p, d=d, w=w: fields.h_polyeval(p, d, w), bounds={'degree': d})
        add('init', 'init/deg%d' % d, lambda p, d=d: fields.h_init(p, d), bounds={'degree': d})
        add('init', 'init_set/deg%d' % d, lambda p, d=d: fields.h_init_set(p, d), bounds={'degree': d})
        add('feq', 'equal_fields/deg%d' % d, lambda p, d=d: fields.h_equal_fields(p, d), bounds={'degree': d})
        add('unique', 'unique/deg%d' % d, lambda p, d=d: fields.h_unique(p, d), bounds={'degree': d}, weight=2)
    return J


def root_jobs(tier):
    J = {}
    q = tier == 'quick'

    def add(group, name, make, opts=None, budget=None, bounds=None, weight=1):
        J.setdefault(group, []).append(Job(name, make, opts, 'c', budget or (120 if q else 1500), bounds, weight=weight))
    for d in ((0, 1, 2, 3, 4) if q else (0, 1, 2, 3, 4, 5, 6)):
        add('descartes', 'descartes01/deg%d' % d, lambda p, d=d: roots.h_descartes01(p, d), bounds={'degree': d}, weight=d)
    for d, b in (((1, 6), (2, 4), (3, 3), (4, 2), (5, 1), (5, (1, 0, 3, 2, 1, 1))) if q else ((1, 20), (2, 8), (3, 5), (4, 3), (5, 2), (6, 1), (7, 1), (5, (1, 0, 3, 2, 1, 1)), (5, (1, 3, 3, 2, 2, 2)), (6, (4, 3, 3, 2, 2, 0, 1)))):
        for w in ('vec', 'poly'):
            add('rootbound', 'rootbound_%s/deg%d%s' % (w, d, '' if isinstance(b, int) else 'x%d' % sum(b)), lambda p, d=d, b=b, w=w: roots.h_rootbound(p, d, b, w), opts={'log_range': (0, b if isinstance(b, int) else max(b))}, bounds={'degree': d, 'bits of the coefficients': b}, weight=4)
    for k in ((0, 1, 2) if q else (0, 1, 2, 3)):
        dp = (4, 4, 3)[k] if q else (6, 6, 5, 4)[k]
        add('vca', 'vca/%droots' % k, lambda p, k=k: roots.h_vca(p, k), opts={'depth': dp, 'loop_bound': 80, 'loop_suspicious': True, 'plain': k >= 1, 'extra': (3,) if q else (1, 3)}, bounds={'real roots': k, 'depth of the bisection': dp}, weight=6)
    add('vca', 'vca_count/1roots', lambda p: roots.h_vca(p, 1), opts={'depth': 2, 'loop_bound': 80, 'loop_suspicious': True, 'extra': (1, 3)}, bounds={'real roots': 1, 'depth of the bisection': 2}, weight=5)
    for k in ((0, 1, 2, 3) if q else (0, 1, 2, 3, 4)):
        for z in (0, 1):
            if k or not z:
                add('isolate', 'isolate/%droots%s' % (k, '_zero' if z else ''), lambda p, k=k, z=z: roots.h_isolate(p, k, z), opts=dict(scales=(2,) if k > 1 else (1, 3), extra=(1,) if k > 1 else (1, 3), bounds=(roots.WMIN, -1, 2) if k > 1 else (roots.WMIN, -1, 0, 2)), bounds={'real roots': k}, weight=5)
                add('upper', 'upper/%droots%s' % (k, '_zero' if z else ''), lambda p, k=k, z=z: roots.h_upper(p, k, z), bounds={'real roots': k}, weight=3)
    for w in ('01', '01_vca', 'vca'):
        add('counts', 'num_real_roots_%s' % w, lambda p, w=w: roots.h_counts(p, w))
    for d in ((0, 1, 2, 3, 4) if q else (0, 1, 2, 3, 4, 5, 6)):
        add('hasroot', 'has_real_root/deg%d' % d, lambda p, d=d: roots.h_hasroot(p, d), bounds={'degree': d}, weight=2)
    for d in ((0, 1, 2) if q else (0, 1, 2, 3)):
        add('sturm', 'sturm/%d' % d, lambda p, d=d: roots.h_sturm(p, d), bounds={'length of the sequence': d + 1}, weight=3)
    for d in ((0, 1, 2, 3) if q else (0, 1, 2, 3, 4)):
        add('scale01', 'scale01/deg%d' % d, lambda p, d=d: roots.h_scale01(p, d), bounds={'degree': d}, weight=2)
    return J


# ---------------------------------------------------------------- C++
MENU = (('e_copy', 'w', 'x'), ('e_copy', 'w', 'y'), ('e_move', 'w', 'x'), ('e_move', 'w', 'y'), ('e_assign', 'x', 'y'), ('e_assign', 'y', 'x'), ('e_assign', 'x', 'x'),
        ('e_massign', 'x', 'y'), ('e_massign', 'y', 'x'), ('e_massign', 'x', 'x'), ('e_swap', 'x', 'y'), ('e_swap', 'x', 'x'), ('e_assign', 'x', 'w'), ('e_massign', 'x', 'w'), ('e_swap', 'y', 'w'),
        ('e_free', 'x'), ('e_free', 'w'), ('e_zero', 'w', 'K'), ('e_coerce', 'w', 'K', 'y'), ('e_coerce', 'w', 'Q', 'x'), ('assign_l', 'x'), ('assign_z', 'x'), ('c_add_e', 'x', 'y'), ('c_sub_e', 'x', 'x'))


def cxx_jobs(tier):
    J = {}
    q = tier == 'quick'
    degs = (1, 2, 3) if q else (1, 2, 3, 4, 5)

    def add(group, name, make, opts=None, budget=None, bounds=None, weight=1):
        o = dict(samples=3, max_paths=2000000)
        o.update(opts or {})
        J.setdefault(group, []).append(Job(name, make, o, 'cxx', budget or (150 if q else 1500), bounds, weight=weight))

    def progs(group, name, ps, **k):
        """ps: list of (degs, elems, steps): one is chosen by the explorer"""
        add(group, name, lambda p, ps=ps: cxx.h_choice(p, ps), **k)
    for d in (0,) + degs:
        F, ds = ('K', {'K': d}) if d else ('Q', {})
        b = {'degree': d or 'rational field'}
        for op in cxx.OPS:
            for form in ('c', 'l', 'r'):
                progs('scalar', '%s_%s_scalar/deg%d' % (form, op, d), [(ds, [('x', F)], [('%s_%s_%s' % (form, op, t), 'x') if form == 'c' else ('%s_%s_%s' % (form, op, t), 'r', 'x')]) for t in cxx.TYPES], bounds=b, weight=2)
        for op in cxx.RELS:
            for form in ('l', 'r'):
                progs('srel', '%s_%s_scalar/deg%d' % (form, op, d), [(ds, [('x', F)], [('%s_%s_%s' % (form, op, t), 'x')]) for t in cxx.TYPES], bounds=b, weight=2)
        progs('unary', 'unary/deg%d' % d, [(ds, [('x', F)], [(u, 'r', 'x')]) for u in ('u_neg', 'u_pos', 'u_pow', 'u_powf')], bounds=b)
        progs('access', 'access/deg%d' % d, [(ds, [('x', F)], [(u, 'x')]) for u in ('z_floor', 'z_floorf', 'z_ceil', 'z_ceilf', 'z_num', 'z_den', 'z_content', 'z_mpz', 'q_mpq', 'v_num', 'u_sgn', 'u_double',
                                                                                   'z_gnum', 'z_gden', 'q_grat', 'v_gnum', 'u_getd')], bounds=b, weight=2)
        progs('pred', 'cxx_pred/deg%d' % d, [(ds, [('x', F)], [(u, 'x')]) for u in ('u_bool', 'u_is_zero', 'u_is_one', 'u_is_rational', 'u_is_integer')], bounds=b)
        progs('ctor', 'make/deg%d' % d, [(ds, [], [('make_' + t, 'r', F)]) for t in cxx.TYPES + ['fz', 'fq']] + ([(ds, [], [('makeq_' + t, 'r')]) for t in cxx.TYPES + ['fz', 'fq']] if not d else []), bounds=b)
        progs('sassign', 'assign_scalar/deg%d' % d, [(ds, [('x', F)], [('assign_' + t, 'x')]) for t in cxx.TYPES + ['fz', 'fq']] + [(ds, [('x', F, 0)], [('e_move', 'w', 'x'), ('assign_' + t, 'x')]) for t in cxx.TYPES + ['fz', 'fq']], bounds=b)
        if d:
            for t in ('i', 'ui', 'l', 'ul', 'z', 'q'):
                progs('vec', 'vec_%s/deg%d' % (t, d), [(ds, [], [('vec_' + t, 'r', 'K')])], bounds=b)
    for dk, dl in (((2, 3), (3, 2), (2, 2), (1, 3)) if q else ((2, 3), (3, 2), (2, 2), (3, 3), (1, 3), (2, 1), (1, 1), (4, 3), (2, 5), (4, 4))):
        b = {'degree of K': dk, 'degree of L': dl}
        nm = 'deg%d_%d' % (dk, dl)
        for pr in cxx.PAIRS:
            if pr[0] == pr[1] == 'Q' and (dk, dl) != (2, 3):
                continue
            ds = {'K': dk, 'L': dl} if 'L' in pr else {'K': dk} if 'K' in pr else {}
            el = [('x', pr[0]), ('y', pr[1])]
            for op in cxx.OPS:
                progs('elem', '%s_%s/%s' % (op, ''.join(pr), nm), [(ds, el, [('c_%s_e' % op, 'x', 'y')]), (ds, el, [('l_%s_e' % op, 'r', 'x', 'y')])] + ([(ds, el[:1], [('c_%s_e' % op, 'x', 'x')]), (ds, el[:1], [('l_%s_e' % op, 'r', 'x', 'x')])] if pr[0] == pr[1] else []), bounds=b, weight=3)
            progs('elem', 'floordiv_%s/%s' % (''.join(pr), nm), [(ds, el, [('z_floordiv', 'x', 'y')])] + ([(ds, el[:1], [('z_floordiv', 'x', 'x')])] if pr[0] == pr[1] else []), bounds=b, weight=3)
            progs('erel', 'rel_%s/%s' % (''.join(pr), nm), [(ds, el, [('l_%s_e' % r, 'x', 'y')]) for r in cxx.RELS] + ([(ds, el[:1], [('l_%s_e' % r, 'x', 'x')]) for r in cxx.RELS] if pr[0] == pr[1] else []), bounds=b, weight=4)
            add('hash', 'hash_%s/%s' % (''.join(pr), nm), lambda p, ds=ds, pr=pr: cxx.h_hash(p, ds, *pr), bounds=b)
            progs('coerce', 'coerce_%s/%s' % (''.join(pr), nm), [(ds, el[:1], [('e_coerce', 'r', pr[1], 'x')])], bounds=b)
        progs('khash', 'khash/' + nm, [({'K': dk, 'L': dl}, [], [('khash', f)]) for f in ('K', 'L', 'Q')], bounds=b)
        n = (3 if (dk, dl) == (2, 3) else 2) if q else 3
        for i, s in enumerate(MENU):
            # the kinds of the initial values: irrational and rational
            for ix, iy in (((2 if dk > 1 else 1, 0), (1, 2 if dl > 1 else 1)) if (dk, dl) in ((2, 3), (1, 3)) or not q else ((2, 1),)):
                add('life', 'history_%d_%s%s/%s' % (i, ix, iy, nm), lambda p, s=s, dk=dk, dl=dl, n=n, ix=ix, iy=iy: cxx.h_history(p, {'K': dk, 'L': dl}, [s], n - 1, MENU, [('x', 'K', ix), ('y', 'L', iy)]), opts=dict(samples=1), bounds=dict(b, steps=n), weight=n * 2)
            if (dk, dl) == (2, 3) or (dk, dl) == (3, 3):
                add('life', 'history_Q_%d/%s' % (i, nm), lambda p, s=s, dk=dk, n=n: cxx.h_history(p, {'K': dk}, [s], n - 1, MENU, [('x', 'K', 2), ('y', 'Q', 1)]), opts=dict(samples=1), bounds=dict(b, steps=n), weight=n * 2)
    return J


def thread_jobs(tier):
    J = []
    q = tier == 'quick'

    def add(name, make, bounds, weight=1):
        J.append(Job(name, make, dict(samples=4, max_paths=2000000), 'cxx', 300 if q else 3000, bounds, weight=weight))
    for n, pre, ts in threads.PROGRAMS:
        b = (2 if len(ts) == 2 or n == 'three_drops' else 1) if q else (4 if len(ts) == 2 else 2)
        for col in ((False, True) if n == 'two_fields' or n == 'two_names' or not q else (False,)):
            add('threads_%s%s' % (n, '_collision' if col else ''), lambda p, pre=pre, ts=ts, b=b, col=col: threads.h_threads(p, pre, ts, b, col), {'threads': len(ts), 'preemptions': b}, weight=5 * len(ts))
    for n in range(1, 6 if q else 7):
        for col in ((False,) if q and n == 5 else (False, True)):
            add('sequence_%d%s' % (n, '_collision' if col else ''), lambda p, n=n, col=col: threads.h_sequence(p, n, col), {'steps': n}, weight=n)
            if n in (2, 3 if tier != 'quick' else 2):
                add('sequence_%d_more%s' % (n, '_collision' if col else ''), lambda p, n=n, col=col: threads.h_sequence(p, n, col, True), {'steps': n, 'fields': 'KLMNHSR'}, weight=n)
    return {'threads': J}


def text_jobs(tier):
    J = []
    q = tier == 'quick'

    def add(name, make, bounds, weight=1, layer='c', **o):
        J.append(Job(name, make, dict(dict(samples=3, max_paths=2000000, loop_bound=90), **o), layer, 300 if q else 3000, bounds, weight=weight))
    for n in range(0, 6 if q else 7):
        k = max(0, n - 3) if q else max(0, n - 4)
        for f in itertools.product(range(5), repeat=k):
            add('bytes%d%s' % (n, ''.join('_' + text.CLASSES[i] for i in f)), lambda p, n=n, f=f: text.h_bytes(p, n, b'x', f), {'characters': n}, weight=n)
    for v in (b'ab', b'x1', b'_') + (() if q else (b'x_1', b'aa')):
        for n in (range(4) if q else range(5)):
            add('bytes%d_%s' % (n, v.decode()), lambda p, n=n, v=v: text.h_bytes(p, n, v), {'characters': n, 'name': v.decode()}, weight=n)
        add('terms1_%s' % v.decode(), lambda p, v=v: text.h_shapes(p, text.templates(1), v), {'monomials': 1, 'name': v.decode()}, weight=2)
    for k in (1, 2, 3):
        ts = text.templates(k)
        for i in range(0, len(ts), 60):
            add('terms%d_%d' % (k, i // 60), lambda p, t=ts[i:i + 60]: text.h_shapes(p, t), {'monomials': k, 'templates': len(ts)}, weight=4)
    for i, t in enumerate(text.LONG):
        add('long_%d' % i, lambda p, t=t: text.h_shapes(p, [t]), {'template': t}, weight=4)
    for n in ((0, 1, 2) if q else (0, 1, 2, 3)):
        add('name%d' % n, lambda p, n=n: text.h_var(p, n, 2 if q else 3), {'characters of the name': n, 'characters of the string': 2 if q else 3}, weight=3)
    for n in range(4 if q else 6):
        for k in range(4):
            add('integral%d_%d' % (n, k), lambda p, n=n, k=k: text.h_integer(p, n, k), {'coefficients': n, 'coefficients before': k})
    for d in ((1, 2, 3) if q else (1, 2, 3, 4, 5)):
        for n in ((0, 1, 2) if q else (0, 1, 2, 3, 4)):
            add('element%d/deg%d' % (n, d), lambda p, n=n, d=d: text.h_elem_str(p, d, lambda ctx: text.sbytes(ctx, n)), {'characters': n, 'degree': d}, layer='cxx')
        add('field/deg%d' % d, lambda p, d=d: text.h_field_str(p, d), {'degree': d}, layer='cxx')
    parse, J = J, []
    lens = printing.LENS if q else printing.LENS + (30, 63, 127, 400)
    for d in ((1, 2) if q else (1, 2, 3, 4)):
        for fl in range(8):
            for la in lens if fl & 1 else (1,):
                for lb in lens if fl & 6 else (1,):
                    add('element_flags%d_%d_%d/deg%d' % (fl, la, lb, d), lambda p, fl=fl, la=la, lb=lb, d=d: printing.h_element(p, d, fl, la, lb), {'flags': fl, 'characters': [la, lb], 'degree': d}, samples=1, loop_bound=500)
        for la in lens:
            for lb in lens:
                add('field_%d_%d/deg%d' % (la, lb, d), lambda p, la=la, lb=lb, d=d: printing.h_field(p, d, la, lb), {'characters': [la, lb], 'degree': d}, samples=1, loop_bound=500)
    for d in ((0, 1, 2) if q else (0, 1, 2, 3, 4)):
        for how in ('elem', 'get', 'conv', 'field', 'ostream', 'kstream'):
            for fl in (0, 1, 2, 3, 4, 5) if how in ('elem', 'get') else (3,):
                for la in (1, 3, 40, 200) if q else lens:
                    add('%s_flags%d_%d/deg%d' % (how, fl, la, d), lambda p, d=d, how=how, fl=fl, la=la: printing.h_cxx(p, d, how, fl, la), {'flags': fl, 'characters': la, 'degree': d or 'rational field'}, layer='cxx', samples=1)
    return {'parse': parse, 'print': J}


CRASH = {'abort', 'san', 'hang', 'except'}
VAL = {'value', 'encl', 'abort', 'mem', 'ub', 'prec', 'progress'}

PROPS = {
    'P01': (['arith', 'eval'], VAL, {'value', 'encl'} | CRASH),
    'P02': (['set', 'eval'], VAL, {'value', 'encl'} | CRASH),
    'P03': (['cmp', 'eval', 'cond'], VAL, {'value', 'encl'} | CRASH),
    'P04': (['pred'], VAL, {'value'} | CRASH),
    'P05': (['round', 'eval', 'cond'], VAL, {'value'} | CRASH),
    'P06': (['fdiv'], VAL, {'value'} | CRASH),
    'P07': (['cfrac'], VAL, {'value', 'encl'} | CRASH),
    'P08': (['conv', 'eval', 'cond'], VAL, {'value', 'encl'} | CRASH),
    'P11': (['unique', 'polyeval'], VAL, {'value', 'encl'} | CRASH),
    'P13': (['init', 'nth', 'embeddings'], VAL, {'value', 'encl'} | CRASH),
    'P14': (['feq', 'polyeval'], VAL, {'value'} | CRASH),
    'P12': (['steps', 'refine', 'polyeval', 'pcond'], VAL, {'value', 'encl'} | CRASH),
    'P09': (['isolate', 'vca', 'rootbound', 'descartes'], VAL, {'value'} | CRASH),
    'P10': (['rootbound', 'descartes', 'upper', 'counts', 'hasroot', 'sturm', 'scale01', 'vca'], VAL, {'value'} | CRASH),
    'P23': (['arith', 'cmp', 'pred', 'round', 'fdiv', 'cfrac', 'set', 'eval', 'conv', 'cond', 'steps', 'refine', 'embeddings', 'pcond', 'nth', 'polyeval', 'init', 'feq', 'unique',
             'descartes', 'rootbound', 'vca', 'isolate', 'upper', 'counts', 'hasroot', 'sturm', 'scale01'], {'leak', 'mem'}, {'leak'} | CRASH),
    'P15': (['parse'], VAL | {'leak'}, {'value', 'encl', 'leak'} | CRASH),
    'P27': (['py'], VAL, {'value', 'san'}),
    'P26': (['stream'], VAL | {'leak'}, {'value', 'encl', 'leak'} | CRASH),
    'P16': (['print'], VAL | {'leak'}, {'value', 'encl', 'leak'} | CRASH),
    'P17': (['scalar', 'elem', 'unary'], VAL, {'value', 'encl'} | CRASH),
    'P18': (['srel', 'erel', 'pred'], VAL, {'value', 'encl'} | CRASH),
    'P19': (['life', 'coerce', 'sassign', 'ctor'], VAL | {'leak'}, {'value', 'encl', 'leak'} | CRASH),
    'P20': (['threads'], {'value', 'mem', 'race', 'hang', 'leak', 'abort'}, {'value', 'san', 'abort', 'race', 'deadlock', 'except', 'leak'}),
    'P21': (['hash', 'khash'], VAL, {'value'} | CRASH),
    'P22': (['access', 'vec', 'ctor', 'pred'], VAL, {'value', 'encl'} | CRASH),
    'P24': (['arith', 'cmp', 'pred', 'round', 'fdiv', 'cfrac', 'set', 'eval', 'conv', 'cond'], {'frame'}, {'frame'}),
    'P25': (['cmp', 'round', 'fdiv', 'cfrac', 'eval', 'conv', 'cond'], {'prec', 'abort', 'progress', 'ub'}, {'prec'} | CRASH),
}


STREAM_ASSUME = ['C++ streams, strings and shared pointers behave as documented; an archive returns what was written under the same name and in the same order',
                 'a printed ball read back contains the printed ball, a printed polynomial read back is the polynomial (P15, P16); reading the same text with the same precision gives the same ball']


def stream_jobs(tier):
    J = []
    q = tier == 'quick'

    def add(name, make, bounds, weight=1, **o):
        J.append(Job(name, make, dict(dict(samples=3, max_paths=500000, loop_bound=300), **o), 'cxx', 300 if q else 3000, bounds, weight=weight))
    for n in range(0, 5 if q else 7):
        for d in (2,) if n > 3 else (1, 2, 3):
            add('read%d/deg%d' % (n, d), lambda p, n=n, d=d: streams.h_read(p, d, lambda ctx: text.sbytes(ctx, n), 'QK'[n % 2], ('i_pword', 'i_istream')[n // 2 % 2]), {'characters': n, 'degree': d}, weight=3 ** n)
    for i, t in enumerate(streams.SHAPES):
        add('read_shape%d' % i, lambda p, t=t: streams.h_read(p, 2, lambda ctx: text.shape(ctx, t, b'k')), {'template': t}, weight=9)
    for d in (0, 1, 2, 3) if q else (0, 1, 2, 3, 4, 5):
        for la, lb in ((1, 1), (2, 9), (3, 2), (40, 12)) if q else ((1, 1), (2, 9), (3, 2), (4, 4), (5, 1), (40, 12), (200, 17)):
            for k, tr in enumerate(([], [32], [10, 40, 49, 41], [41])):
                add('write_read%d_%d_%d/deg%d' % (la, lb, k, d), lambda p, la=la, lb=lb, tr=tr, d=d: streams.h_roundtrip(p, d, la, lb, tr), {'characters': [la, lb], 'degree': d, 'what follows': tr}, samples=1)
    for d in (1, 2, 3) if q else (1, 2, 3, 4, 5):
        add('description/deg%d' % d, lambda p, d=d: streams.h_field(p, d, 2 if q else 5), {'degree': d, 'failures to isolate': 2 if q else 5})
    for fs in (('K',), ('L',), ('Q',), ('K', 'K'), ('K', 'L'), ('L', 'K'), ('Q', 'K')):
        add('archive_' + ''.join(fs), lambda p, fs=fs: streams.h_archive(p, fs, 'elements'), {'fields': list(fs)})
    for fs in (('K',), ('L',), ('Q',)):
        add('archive_field_' + ''.join(fs), lambda p, fs=fs: streams.h_archive(p, fs, 'field'), {'fields': list(fs)})
    return J


PY_ASSUME = ['cppyy hands a Python int to a constructor unchanged if -2^63 <= n < 2^32 and may deliver anything otherwise; to a template for int if it fits, else it raises; a reference obtained from intrusive_ptr::get keeps nothing alive, and cppyy may replace its attribute __lifeline at any time',
             'str, hex and formatting of integers and the conversion of texts by GMP and by the parser (P15) are exact; realalg delivers intervals that contain the root and isolate it']


def py_jobs(tier):
    J = []
    q = tier == 'quick'

    def add(name, h, bounds=None, weight=1, layer='c', **o):
        J.append(Job(name, h, dict(dict(samples=3, max_paths=100000), **o), layer, 200 if q else 2000, bounds or {}, weight=weight))
    for fn in pyth.OPS:
        for side in 'lr':
            add('py_%s_%s' % (side, fn), lambda p, fn=fn, side=side: pyth.h_binary(fn, side))
    add('py_l_add_nogmpy', lambda p: pyth.h_binary('add', 'l', False))
    add('py_unary', lambda p: pyth.h_unary())
    for f in ('Kv', 'pv', 'v'):
        add('py_make_' + f, lambda p, f=f: pyth.h_make(f))
    add('py_empty', lambda p: pyth.h_empty())
    for n in (1, 2) if q else (1, 2, 3):
        for t in (False, True):
            add('py_list%d_%d' % (n, t), lambda p, n=n, t=t: pyth.h_list(n, t), {'coefficients': n})
    add('py_realalg_number', lambda p: pyth.h_relem())
    add('py_field', lambda p: pyth.h_field())
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6):
        add('py_realalg_element%d' % n, lambda p, n=n: pyth.h_poly(n, True), {'coefficients': n})
        add('py_realalg_field%d' % n, lambda p, n=n: pyth.h_poly(n, False), {'coefficients': n})
    for pr in (1, 15, 16, 17, 40) if q else (1, 2, 5, 15, 16, 17, 18, 30, 40, 100):
        add('py_realalg_interval%d' % pr, lambda p, pr=pr: pyth.h_interval(pr), {'precision of the interval': pr})
    for d in (1, 2):
        ds = {'K': d}
        for op in cxx.OPS:
            ps = [(ds, [('x', 'K')], [('%s_%s_%s' % (f, op, t), 'r', 'x')]) for t in ('i', 'z', 'q') for f in 'lr']
            add('py_template_%s/deg%d' % (op, d), lambda p, ps=ps: cxx.h_choice(p, ps), {'degree': d}, layer='cxx', samples=0, candidates=pyth.tcandidates, max_paths=2000000)
        ps = [(ds, [('x', 'K')], [('u_neg', 'r', 'x')]), (ds, [('x', 'K')], [('q_mpq', 'x')])] + [(ds, [('x', 'K'), ('y', 'K')], [('l_%s_e' % op, 'r', 'x', 'y')]) for op in cxx.OPS]
        add('py_template_elem/deg%d' % d, lambda p, ps=ps: cxx.h_choice(p, ps), {'degree': d}, layer='cxx', samples=0, candidates=pyth.tcandidates, max_paths=2000000)
    return J


CXX = ('P17', 'P18', 'P19', 'P21', 'P22')
HEAVY = ('vca/2*', 'descartes01/deg4', 'sturm/2', 'upper/3*', 'rootbound*deg4', 'rootbound*deg5*', 'isolate/3*', 'get_d[1234]/deg2', 'equal_*/deg2', 'refine/deg2')
ASK = {'P23': {'leak', 'mem'}}


def spec(prop, tier):
    groups, kinds, rkinds = PROPS[prop]
    if prop == 'P20':
        return dict(jobs=thread_jobs(tier)['threads'], kinds=kinds, rkinds=rkinds, variants=variants, neighbours=None, assumptions=ASSUME, bounds='', driver='thr')
    if prop in ('P15', 'P16'):
        return dict(jobs=text_jobs(tier)['parse' if prop == 'P15' else 'print'], kinds=kinds, rkinds=rkinds, variants=variants, neighbours=neighbours, assumptions=ASSUME, bounds='', driver='text')
    if prop == 'P26':
        return dict(jobs=stream_jobs(tier), kinds=kinds, rkinds=rkinds, variants=variants, neighbours=neighbours, assumptions=ASSUME + STREAM_ASSUME, bounds='', driver='stream', units=('archive',))
    if prop == 'P27':
        return dict(jobs=py_jobs(tier), kinds=kinds, rkinds=rkinds, variants=variants, neighbours=neighbours, assumptions=ASSUME + PY_ASSUME, bounds='', driver='py', units=('cppyy',))
    if prop in CXX:
        J = cxx_jobs(tier)
    else:
        J = elem_jobs(tier)
        J.update(field_jobs(tier))
        J.update(root_jobs(tier))
    jobs = [j for g in groups for j in J[g]]
    if prop == 'P23':
        # memory handling does not depend on the values: the larger instances are left to the thorough run
        jobs = [j for j in jobs if tier != 'quick' or not any(fnmatch.fnmatch(j.name, h) for h in HEAVY)]
        for j in jobs:
            j.opts = dict(j.opts, samples=0)
    return dict(jobs=jobs, kinds=kinds, rkinds=rkinds, variants=variants, neighbours=neighbours, assumptions=ASSUME, bounds='', ask=ASK.get(prop), extra=15000 if prop in ('P09', 'P10') else 5000)


def variants(c, f, prop):
    """concrete scenarios tried for one candidate of the solver"""
    if prop in ('P15', 'P16'):
        return text.variants(c)
    if prop == 'P27':
        return [c]
    if prop == 'P26':
        return [c] if str(c.get('leak', 0)) == '1' else [c, dict(c, leak=1)]
    if prop == 'P20':
        t = {k: v for k, v in c.items() if k != 'sched'}
        out = [c, dict(c, leak=1)]
        if 't1' in c:
            out += [dict(t, search=1, timeout=60)] + ([dict(t, tsan=1, timeout=40)] if f['kind'] == 'race' else [])
        return out
    if prop == 'P23':
        return [x for y in memory.variants(c) for x in (y, dict(y, leak=1))] if f['kind'] != 'mem' else [c] + memory.variants(c)
    if c.get('op') == 'cxx':
        if prop == 'P19':
            return [y for x in (c, cmutate.big(c)) for y in (x, dict(x, leak=1))]
        return cmutate.variants(c)
    out = [c]
    if c.get('op') in mutate.rmutate.ROOT_OPS:
        if prop == 'P09':
            out = [] if c['op'] in ('rootbound', 'descartes01') else out
            out.append({'op': 'isolate', 'pol': c['pol']})
        elif c['op'] in ('descartes01', 'isolate01', 'rootbound'):
            out += [{'op': 'count', 'pol': c['pol']}, {'op': 'count01', 'pol': c['pol'], 'which': 0}]
            if c['op'] == 'isolate01':
                out = out[1:]
        return out
    if c.get('op') in mutate.fmutate.FIELD_OPS:
        for pr in (2, 8, 64):
            out.append(dict(c, prec=pr))
        return out
    if 'pol' not in c:
        return out
    names = [k[:-1] for k in c if k.endswith('b') and k[:-1] in c]
    d = dict(c)
    for n in names:
        d[n + 'b'] = 'default'
    out.append(d)
    d = dict(c, emb='default')
    out.append(d)
    d = dict(d)
    for n in names:
        d[n + 'b'] = 'default'
    out.append(d)
    for pr in (2, 8, 64):
        out.append(dict(c, prec=pr))
    d = dict(c)
    for n in names:
        d[n + 'b'] = 'inf'
    out.append(d)
    return out


def neighbours(cs, n, seed, prop):
    if prop == 'P27':
        rng = random.Random(seed)
        return [pyth.mutate(rng.choice(cs), rng) for _ in range(min(n, 200))] if cs else []
    if prop == 'P26':
        rng = random.Random(seed)
        out = [streams.mutate(rng.choice(cs), rng) for _ in range(min(n, 2000))] if cs else []
        return [x for x in out if x]
    if prop in ('P15', 'P16'):
        rng = random.Random(seed)
        out = [text.mutate(rng.choice(cs), rng) for _ in range(min(n, 3000))] if cs else []
        return [x for x in out if x]
    if prop == 'P23':
        return [dict(y, leak=1) if i % 2 else y for i, x in enumerate(mutate.neighbours(cs, n // 5, seed)) for y in memory.variants(x)[:2]]
    if prop == 'P19':
        return [y for i, x in enumerate(mutate.neighbours(cs, n // 4, seed)) for y in ((x, dict(x, leak=1)) if i % 4 == 0 else (x,))]
    out = []
    if cs and all(c.get('op') in mutate.rmutate.ROOT_OPS for c in cs):
        n *= 3
    for x in mutate.neighbours(cs, n, seed):
        if x.get('op') in mutate.rmutate.ROOT_OPS:
            out += variants(x, None, prop)
        else:
            out.append(x)
    return out
