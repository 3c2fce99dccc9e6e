"""What each property's check explores."""
import os
import build as B
from concurrent.futures import ThreadPoolExecutor
LIMIT_QUICK = int(os.environ.get('MC_LIMIT', '600'))
LIMIT_THOROUGH = int(os.environ.get('MC_LIMIT', '7200'))
PAR = 3
ASSUME = ['The PPL and GMP libraries installed in the sandbox compute exact polyhedra, grids and rationals correctly (oracle).',
          'Coverage is bounded by the enumerated alphabets, dimensions, depth and state caps recorded per job.']
D1 = '0,1;0,2;1,1'
NUMS = {'box': ['MPQ', 'D', 'MPFR'], 'oct': ['MPQ', 'D']}


def libs_of(dom):
    d = dom.split(':')[0]
    if d.startswith('pkeq'):
        return ['polka' + d[4:]]
    if d.startswith('ppl'):
        return ['ap_ppl']
    if d.startswith('pkgrid'):
        return ['ap_pkgrid', 'ap_ppl', 'polkaMPQ']
    return [d]


def dom(name, tags, quick, thorough, tier, grps='', extra=None, suffix=''):
    """job of the domain explorer; quick/thorough: dict of explorer options"""
    o = dict(quick)
    if tier == 'thorough':
        o.update(thorough)
    o.setdefault('dims', D1)
    o['tags'] = tags
    if grps:
        o['grps'] = grps
    o.update(extra or {})
    return {'name': name + suffix, 'exe': 'mc_dom', 'libs': libs_of(name), 'opt': dict(o, dom=name)}


RES = 'sound,precise,crash,exn'
QD = {'depth': 2, 'cap': 110, 'queries': 0, 'pairs': 0}
TD = {'depth': 3, 'cap': 1500, 'tier': 1, 'dims': '0,1;0,2;1,1;0,3;1,2', 'partners': 60, 'dest': 4}
QQ = {'depth': 2, 'cap': 150, 'ops': 0, 'queries': 1, 'pairs': 60}
TQ = {'depth': 3, 'cap': 2000, 'tier': 1, 'dims': '0,1;0,2;1,1;0,3;1,2', 'pairs': 300}
DIMG = 'add_dims,remove_dims,permute,expand,fold,dimchange2'
DPPL = ['pplpoly', 'pplpoly:strict']
DEXACT = ['boxMPQ', 'octMPQ', 'polkaMPQ', 'polkaMPQ:strict', 'pkeqMPQ', 'pplgrid'] + DPPL
DNUM = ['boxMPQ', 'boxD', 'boxMPFR', 'octMPQ', 'octD']
DPK = ['polkaMPQ', 'polkaMPQ:strict', 'pkeqMPQ']
DGRID = ['pplgrid', 'pkgrid']
DLVL1 = ['boxMPQ', 'octMPQ', 'polkaMPQ', 'polkaMPQ:strict', 'pplgrid']
DALL = DNUM + DPK + DPPL + DGRID


def jobs(p, tier):
    J = []
    if p == 'C01':
        for d in ('boxMPQ', 'boxD', 'boxMPFR'):
            J.append(dom(d, RES, QD, TD, tier))
    elif p == 'C02':
        for d in ('octMPQ', 'octD'):
            J.append(dom(d, RES, QD, TD, tier))
    elif p == 'C03':
        for d in ('polkaMPQ', 'polkaMPQ:strict'):
            J.append(dom(d, RES, QD, TD, tier))
        for d in ('polkaMPQ:algo=-1', 'polkaMPQ:strict:algo=1'):
            J.append(dom(d, RES, dict(QD, cap=50), TD, tier))
    elif p == 'C04':
        J.append(dom('pkeqMPQ', RES, dict(QD, dims='0,1;0,2;1,1;0,3'), TD, tier))
    elif p == 'C05':
        for d in DPPL:
            J.append(dom(d, RES, QD, TD, tier))
    elif p == 'C06':
        for d in DGRID:
            J.append(dom(d, RES, dict(QD, dims='0,0;0,1;0,2;1,1;2,0'), dict(TD, dims='0,0;0,1;0,2;1,1;2,0;0,3;1,2'), tier))
    elif p == 'C10':
        for d in DEXACT:
            J.append(dom(d, 'flags', dict(QD, cap=80, queries=1, pairs=40), TD, tier))
            if d.startswith('polka') or d.startswith('ppl'):
                J.append(dom(d, 'flags', dict(QD, cap=60, dims='1,2'), dict(TD, cap=400, dims='1,2;2,1'), tier, 'forget,assign_lin', suffix='#int'))
    elif p == 'C11':
        for d in DALL:
            J.append(dom(d, 'query,crash,exn', QQ, TQ, tier))
    elif p == 'C13':
        for d in DALL:
            J.append(dom(d, 'args,destr,hash', dict(QD, cap=60, queries=1, pairs=30), dict(TD, cap=500), tier))
    elif p == 'C14':
        for d in DALL:
            J.append(dom(d, RES, dict(QD, cap=150, dims='0,0;0,1;0,2;1,1;0,3;1,2'), dict(TD, dims='0,0;0,1;0,2;1,1;0,3;1,2;2,1'), tier, DIMG))
            J.append(dom(d, RES, dict(QD, depth=2, cap=14, dims='0,4;2,2'), dict(TD, cap=200, dims='0,4;2,2;1,3;0,5', tier=0), tier, DIMG, suffix='#4'))
    elif p == 'C22':
        for d in DNUM:
            J.append(dom(d, RES, dict(QD, cap=400, dims='0,0;0,1;0,2;1,1;0,3'), dict(TD, cap=20000), tier, 'serialize'))
    elif p == 'C27':
        S = 'sound,precise,crash,exn,args'
        for d in DNUM + DPPL + DGRID + ['pkeqMPQ', 'polkaMPQ', 'polkaMPQ:strict']:
            for a in ((':amc=1', ':amc=2') if d.startswith('polka') else ('',)):
                J.append(dom(d + ':approx' + a, S, dict(QD, cap=300, dims='0,1;0,2;1,1;0,3'), dict(TD, cap=3000), tier, 'approximate'))
        for d in ('polkaMPQ:approx', 'polkaMPQ:strict:approx:amc=3'):
            J.append(dom(d, S, dict(QD, cap=25), dict(TD, cap=200), tier, suffix='#then'))
        for d in ('polkaMPQ:mos=4', 'polkaMPQ:mos=8', 'polkaMPQ:strict:mos=6', 'polkaMPQ:mos=5:algo=-1', 'polkaMPQ:strict:mos=9:algo=-1', 'polkaMPQ:mos=6:algo=1', 'pkeqMPQ:mos=3'):
            J.append(dom(d, S + ',query', dict(QD, cap=50, queries=1, pairs=20), dict(TD, cap=500), tier))
        for d in ('boxMPQ', 'boxD', 'octMPQ', 'octD', 'pkeqMPQ', 'pplpoly', 'pplgrid'):
            for k in (-1, 1) + ((5, 100, 103) if d.startswith('box') else ()):
                J.append(dom('%s:algo=%d' % (d, k), 'sound,crash,exn,args,query', dict(QD, cap=25, queries=1, pairs=20), dict(TD, cap=300), tier))
    elif p == 'C28':
        for d in DALL:
            J.append(dom(d, RES + ',gens', dict(QD, cap=400, dims='0,0;0,1;0,2;1,1;0,3', queries=1), dict(TD, cap=20000), tier, 'convert'))
    elif p == 'C19':
        J.append(flat('mc_env', tier, {'workers': 8, 'tier': 1}, {'tier': 2}))
    elif p == 'C20':
        J.append(flat('mc_lvl1', tier, {'dom': 'cont', 'workers': 4}, name='containers'))
        for d in DLVL1:
            J.append(flat('mc_lvl1', tier, {'dom': d, 'workers': 4}, libs=libs_of(d), name=d))
    elif p == 'C21':
        for d, e in (('boxMPQ', 'octMPQ'), ('boxD', 'boxMPQ'), ('octMPQ', 'boxMPQ'), ('octD', 'polkaMPQ'), ('polkaMPQ', 'boxMPQ'), ('polkaMPQ:strict', 'octD'), ('pkeqMPQ', 'polkaMPQ'), ('pplpoly', 'octMPQ'), ('pplgrid', 'pplpoly')):
            J.append(flat('mc_err', tier, {'dom': d, 'other': e, 'workers': 4}, libs=sorted(set(libs_of(d) + libs_of(e))), name=d))
    elif p == 'C12':
        for d in DALL:
            J.append(flat('mc_widen', tier, {'dom': d, 'lite': 9 if d == 'pkgrid' else 4}, {'lite': 0}, libs=libs_of(d), name=d))
        for d, w in (('octMPQ', 99), ('polkaMPQ', 1), ('pplpoly', 1), ('pplpoly', 2), ('pplpoly', 3), ('pplgrid', 1)):
            J.append(flat('mc_widen', tier, {'dom': d, 'walg': w, 'lite': 4}, {'lite': 0}, libs=libs_of(d), name='%s#algo%d' % (d, w)))
    elif p == 'C15':
        for b in BACKENDS:
            J.append(flat('mc_expr.' + b, tier, {} if tier == 'thorough' or b in ('MPQ', 'D') else {'lite': 1}))
        for d in ('boxMPQ', 'boxD', 'octMPQ', 'polkaMPQ'):
            J.append(flat('mc_lin', tier, {'dom': d, 'lite': 1}, {'lite': 0}, libs=libs_of(d), name='lin-' + d))
    elif p == 'C16':
        J.append(flat('mc_cont', tier, {'workers': 8}))
    elif p == 'C17':
        J.append(flat('mc_scal', tier, {'workers': 8}))
    elif p == 'C18':
        for b in BACKENDS:
            J.append(flat('mc_num.' + b, tier))
    elif p == 'C23':
        A = {'mode': 'asan', 'env': {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1'}}

        def mem(e, quick, thorough=None, libs=(), name='', asan=0):
            t = dict({'tier': 0}, **(thorough or {}))
            if asan:
                J.append(flat(e + '.asan', tier, dict(quick, every=quick.get('every', 1) * asan), dict(t, every=t.get('every', quick.get('every', 1))), libs=libs, name='asan-%s%s' % (e, name), **A))
            J.append(flat(e + '.mem', tier, quick, t, libs=libs, name='mem-%s%s' % (e, name)))
        for d in ('boxMPQ', 'boxD', 'boxMPFR', 'octMPQ', 'octD', 'polkaMPQ', 'polkaMPQ:strict', 'pkeqMPQ', 'pplpoly', 'pplgrid'):
            mem('mc_mem', {'dom': d, 'dims': '0,1;0,2', 'stride': 67, 'every': 2}, {'every': 1, 'dims': '0,1;0,2;1,1;0,3', 'stride': 5}, libs_of(d), '-' + d, 2 if d in ('boxMPQ', 'octMPQ', 'octD', 'polkaMPQ', 'pkeqMPQ', 'pplpoly') else 0)
        for d in ('boxMPQ', 'octMPQ', 'polkaMPQ'):
            mem('mc_lvl1', {'dom': d, 'every': 3}, {'every': 1}, libs_of(d), '-' + d, 3)
        mem('mc_err', {'dom': 'polkaMPQ', 'other': 'boxMPQ', 'every': 3}, {'every': 1}, ['polkaMPQ', 'boxMPQ'], '', 3)
        mem('mc_lvl1', {'dom': 'cont', 'every': 2}, {'every': 1}, (), '-cont', 2)
        mem('mc_env', {'every': 3}, {'every': 1}, (), '', 3)
        mem('mc_cont', {'every': 5}, {'every': 1}, (), '', 3)
        mem('mc_scal', {'every': 7}, {'every': 1}, (), '', 3)
        for b in ('MPQ', 'D', 'MPFR'):
            mem('mc_num.' + b, {'every': 23}, {'every': 1}, (), '', 3 if b != 'D' else 0)
        for b in ('MPQ', 'D'):
            mem('mc_expr.' + b, {'lite': 1, 'every': 23}, {'lite': 1, 'every': 3}, (), '', 3 if b == 'MPQ' else 0)
    elif p == 'C24':
        for d in ('boxMPQ', 'octMPQ', 'octD', 'polkaMPQ', 'polkaMPQ:strict', 'pplpoly'):
            J.append(flat('mc_cxx', tier, {'dom': d}, libs=sorted(set(libs_of(d) + ['apronxx'])), name=d))
        J.append(flat('mc_cxx', tier, {'dom': 'values'}, libs=['apronxx'] + libs_of('boxMPQ'), name='values'))
        for d in ('values', 'boxMPQ', 'octMPQ'):
            J.append(flat('mc_cxx.mem', tier, {'dom': d}, {'tier': 0}, libs=['apronxx'] + libs_of('boxMPQ' if d == 'values' else d), name='mem-' + d))
    else:
        raise SystemExit('no check for ' + p)
    return J


def build(jobs):
    libs, exes = {}, {}
    for j in jobs:
        m = j.get('mode', 'rel')
        libs.setdefault(m, set()).update(j['libs'])
        exes.setdefault((j['exe'], m), j)
    for m, l in libs.items():
        B.build_libs(sorted(l) + ['apron'], m)

    def one(em):
        (e, m) = em
        j2 = EXES[e]
        B.build_exe(e, j2['srcs'], m, link=j2.get('link', ()), defs=j2.get('defs', ()), num=j2.get('num', 'NUM_MPQ'))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, sorted(exes)))


EXES = {'mc_cxx': {'srcs': ['mc_cxx.cc'], 'link': ['apronxx']}, 'mc_mem': {'srcs': ['mc_mem.cc']}, 'mc_err': {'srcs': ['mc_err.cc']}, 'mc_widen': {'srcs': ['mc_widen.cc']}, 'mc_lin': {'srcs': ['mc_lin.cc']}, 'mc_env': {'srcs': ['mc_env.cc']}, 'mc_lvl1': {'srcs': ['mc_lvl1.cc']}, 'mc_dom': {'srcs': ['mc_dom.cc']}, 'mc_scal': {'srcs': ['mc_scal.cc']}, 'mc_cont': {'srcs': ['mc_cont.cc']}}
BACKENDS = ['Il', 'Ill', 'MPZ', 'Rl', 'Rll', 'MPQ', 'D', 'Dl', 'MPFR']
NUMDEFS = ['-DNDEBUG', '-frounding-math', '-fpermissive']
for _b in BACKENDS:
    EXES['mc_num.' + _b] = {'srcs': ['mc_num.cc'], 'defs': NUMDEFS, 'num': B.NUM[_b]}
    EXES['mc_expr.' + _b] = {'srcs': ['mc_expr.cc'], 'defs': NUMDEFS, 'num': B.NUM[_b]}


for _e in list(EXES):
    EXES[_e + '.mem'] = dict(EXES[_e], defs=list(EXES[_e].get('defs', ())) + ['-DMC_MEM'])
    EXES[_e + '.asan'] = dict(EXES[_e], defs=list(EXES[_e].get('defs', ())) + ['-DMC_ASAN'])


def flat(exename, tier, quick=None, thorough=None, libs=(), name=None, **kw):
    o = dict(quick or {})
    if tier == 'thorough':
        o['tier'] = 1
        o.update(thorough or {})
    return dict({'name': name or exename, 'exe': exename, 'libs': list(libs), 'opt': o}, **kw)



def exe(j):
    return os.path.join(B.OUT, j.get('mode', 'rel'), j['exe'])


def command(j, budget):
    o = dict(j['opt'])
    o.setdefault('workers', 8 // PAR + 1)
    c = [exe(j)]
    for k, v in o.items():
        c += ['--' + k, str(v)]
    return c + ['--budget', '%d' % budget, '--out', j['out']]


def replay_command(j, f, outp):
    c = [exe(j), '--replay', f, '--out', outp]
    if 'tags' in j['opt']:
        c += ['--tags', j['opt']['tags']]
    else:
        for k in ('dom', 'tier'):
            if k in j['opt']:
                c += ['--' + k, str(j['opt'][k])]
    return c


FLAT = 'exhaustive enumeration of bounded inputs and operation sequences run on the real code against an exact reference model'
TECH = {
    'C16': (FLAT, 'Every sequence of edits of a fixed length on linear expressions, every pair of expressions of a fixed alphabet (all representations), every dimension change and permutation of expressions, constraints, generators and trees of bounded size, against plain vectors and trees; not a proof beyond these sizes.'),
    'C17': (FLAT, 'Every pair of scalars and of intervals over a fixed value alphabet in every representation (double, rational, MPFR of several precisions), every conversion and rounding direction, compared with exact rationals; not a proof for all values.'),
    'C12': (FLAT, 'Every increasing chain x := widen(x, join(x, body(x))) over every starting value, every pair of loop bodies and every widening operator (plain, with every threshold set of the list, domain-specific ones, PPL algorithms), followed to its end, and every operator on every pair of values in several representations: result is an upper bound, arguments unchanged, chains stabilise within the bound the domain gives, representable thresholds satisfied by both arguments are kept; octagon narrowing and epsilon operators on every pair.'),
    'C15': (FLAT, 'Every expression tree of a bounded size over a fixed alphabet of operations, types, rounding modes, constants and variables, in every interval box of a fixed list and at every grid point of it, through evaluation, (quasi/int)linearisation, boxisation and backward refinement, in all nine number back ends; the result must contain every exact value (all permitted roundings enumerated). Not a proof for larger trees.'),
    'C19': (FLAT, 'Every environment over a fixed name alphabet, every pair and every array of bounded length, and every add/remove/rename/permute/merge/dimension-change request over them, compared with ordered name sets; not a proof for larger environments.'),
    'C21': (FLAT, 'Every call of the interface with every single way of being invalid over the bounded lists (dimensions, permutations, dimension changes, coefficients, variables, environments, value of another library, empty array), destructive or not, on several values, on the compiled library: exception, log, flags, dimensions, soundness of the default and integrity of the arguments are checked; and every valid neighbour must stay silent'),
    'C24': (FLAT, 'Every operation, constructor, comparison, query and conversion of the C++ classes abstract0 and abstract1, in the in-place form and in the three-operand form with the destination distinct from, equal to the first and equal to the second operand, on every pair of values of an alphabet, for box, octagon, newpolka and PPL managers; every pair of scalar, interval, coefficient, permutation, dimension change, linear expression, tree expression and environment values; the oracle is the C function called on copies (value, exception, operands unchanged, reference counts). The same enumeration runs with every heap block counted (leaks and uninitialised memory in the wrapper).'),
    'C23': (FLAT, 'Every "make a value; operation; operation or query" history of the domain alphabet within the stated stride, and the level-1, environment, container, number and expression enumerations, run on the real code in two instrumented builds: one with every heap block counted and filled with changing patterns (a history that, repeated alone, always leaves blocks behind is a leak; one whose results change with the fill pattern reads uninitialised or released memory), one under AddressSanitizer (any report is a violation); not a proof for longer histories.'),
    'C20': (FLAT, 'Every level-1 container, and every level-1 operation of the alphabet over every pair of environments and a list of abstract values, compared with the level-0 operation on the renamed/embedded arguments and with the exact set of valuations by name; not a proof beyond these bounds.'),
    'C18': (FLAT, 'Every operand tuple over a fixed boundary-value alphabet (signed zeros, ulp neighbours, powers of two, huge and tiny numbers, infinities, non-representable rationals) for every num/bound/itv operation and conversion in all nine number back ends, compared with exact rational arithmetic; not a proof for all operands.'),
}
CLAIMED = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C27', 'C28']
TECH_DEFAULT = ('explicit-state enumeration of operation histories of the real library against an exact reference model',
                'Every operation of the alphabet from every state reached by breadth-first search within the stated depth and state caps, on the real code; the oracle is exact rational geometry (PPL) and exact concrete evaluation. Nothing is claimed outside the bounds recorded in the evidence.')

NOT_APPLICABLE = {
    'C07': 'taylor1plus: the enumerated histories crash or hang the library in many places that could not be triaged in the time available, and its concretisation (shared noise symbols) has no exact reader; a check would raise alarms that are neither confirmed defects nor false',
    'C08': 'avoct: same: crashes in the copy of the octagon code specialised to three bounds per entry, not triaged',
    'C09': 'fppol: needs the GLPK-based solver and has floating-point soundness gaps by design; crashes on the enumerated histories not triaged',
    'C25': 'the JNI binding is built here, but no explorer driving it was written; the libraries it calls are covered by the other properties',
    'C26': 'many operations of ap_disjunction are not implemented (they raise AP_EXC_NOT_IMPLEMENTED); no explorer for the rest was written',
    'C29': 'no check built for the full statement (interleavings of two managers); the part about one manager after exceptions is covered by C21 and C27',
    'C30': 'no check built',
}
