"""Nodal corrections: published tables

Equilibrium factors f and phases u as functions of the longitude of the lunar
node (n) and of the lunar perigee (p): Doodson & Warburg, Schureman (1958),
Cartwright & Tayler, Ray (2017), as adopted by OTIS, FES, perth3 and GOT.

R(kinds, names, A, B): f e^(iu) = B + i A, with A a sum of sines and B of
cosines of the listed arguments;
D(kinds, names, f, u): f a sum of cosines, u (degrees) a sum of sines;
S(names, key): Schureman's formulas (FES), see schureman() in arguments.py;
C(names, parents): compound tides: parent: power, or (power, multiple of u).
The first matching row counts ('*' rows come after the specific ones).
"""
ROWS, PARENTS = [], {}


def terms(s):
    out = []
    for t in s.split(', '):
        c, _, b = t.partition(' ')
        out.append((c, b))
    return out


def R(kinds, names, A, B):
    ROWS.append((kinds.split(), names.split(), 'R', (terms(A), terms(B))))


def D(kinds, names, f, u):
    ROWS.append((kinds.split(), names.split(), 'D', (terms(f), terms(u))))


def S(names, key):
    ROWS.append((['FES'], names.split(), 'S', key))


def C(names, parents):
    for n in names.split():
        PARENTS[n] = {k: (v if isinstance(v, tuple) else (v, v)) for k, v in parents.items()}


S('mm msm', 'mm')
D('OTIS', 'mf msqm msp mq mtm', '1.043, 0.414 n', '-23.7 n, 2.7 2n, -0.4 3n')
S('mf msqm msp mq mt mtm', 'mf')
S('msf', 'msf')
ROWS.append((['OTIS'], ['o1', 'so3', 'op2'], 'RD', (terms('0.189 n, -0.0058 2n'), terms('1, 0.189 n, -0.0058 2n'), terms('10.8 n, -1.3 2n, 0.2 3n'))))
S('o1 so3 op2 2q1 q1 rho1 sigma1', 'o1')
D('perth3', 'q1 o1', '1.009, 0.187 n, -0.015 2n', '10.8 n, -1.3 2n')
ROWS.append((['OTIS'], ['2q1', 'q1', 'rho1', 'sigma1'], 'RR', (terms('0.188 n'), terms('1, 0.188 n'), terms('0.189 n'), terms('1, 0.189 n'))))
S('chi1 theta1 j1', 'j1')
S('k1 sk3 2sk5', 'k1')
D('perth3', 'k1', '1.006, 0.115 n, -0.009 2n', '-8.9 n, 0.7 2n')
S('oo1 ups1', 'oo1')
S('m2 2n2 mu2 n2 nu2 lambda2 ms4 eps2 2sm6 2sn6 mp1 mp3 sn4', 'm2')
D('perth3', 'm2 n2', '1, -0.037 n', '-2.1 n')
S('l2 sl4', 'l2')
S('k2 sk4 2sk6 kp1', 'k2')
D('perth3', 'k2', '1.024, 0.286 n, 0.008 2n', '-17.7 n, 0.7 2n')
S('eta2 zeta2', 'eta2')
S('m3', 'm3')
D('*', 'mfdw', '1.043, 0.414 n', '-23.7 n, 2.7 2n, -0.4 3n')
R('OTIS', 'msf tau1 p1 theta1 lambda2 s2', '0.0', '1.0')
R('FES perth3', 'p1 s2', '0.0', '1.0')
R('OTIS', 'mm msm', '0.0', '1.0, -0.13 n')
R('*', 'mm msm', '-0.0534 2p, -0.0219 2p-n', '1.0, -0.1308 n, -0.0534 2p, -0.0219 2p-n')
R('*', 'mf msqm msp mq', '-0.04324 2p, -0.41465 n, -0.03873 2n', '1.0, 0.04324 2p, 0.41465 n, 0.03873 2n')
R('OTIS', 'mt', '-0.203 n, -0.04 2n', '1.0, 0.203 n, 0.04 2n')
R('*', 'mt mtm', '-0.018 2p, -0.4145 n, -0.04 2n', '1.0, 0.018 2p, 0.4145 n, 0.04 2n')
R('*', 'msf', '0.137 n', '1.0')
R('*', 'mst', '-0.38 2p, -0.413 n, -0.037 2n', '1.0, 0.38 2p, 0.413 n, 0.037 2n')
R('*', 'o1 so3 op2', '0.1886 n, -0.0058 2n, -0.0065 2p', '1.0, 0.1886 n, -0.0058 2n, -0.0065 2p')
R('*', '2q1 q1 rho1 sigma1', '0.1886 n', '1.0, 0.1886 n')
R('*', 'tau1', '0.219 n', '1.0, -0.219 n')
R('*', 'beta1', '0.226 n', '1.0, 0.226 n')
R('M1=Doodson', 'm1', '1 p, 0.2 p-n', '2.0 p, 0.4 p-n')
R('M1=Ray', 'm1', '0.64 p, 0.135 p-n', '1.36 p, 0.267 p-n')
R('M1=perth5', 'm1', '-0.2294 n, -0.3594 2p, -0.0664 2p-n', '1.0, 0.1722 n, 0.3594 2p, 0.0664 2p-n')
R('OTIS', 'chi1', '-0.221 n', '1.0, 0.221 n')
R('*', 'chi1', '-0.25 n', '1.0, 0.193 n')
R('*', 'p1', '-0.0112 n', '1.0, -0.0112 n')
R('OTIS', 'k1 sk3 2sk5', '-0.1554 n, 0.0029 2n', '1.0, 0.1158 n, -0.0029 2n')
R('*', 'k1 sk3 2sk5', '-0.1554 n, 0.0031 2n', '1.0, 0.1158 n, -0.0028 2n')
R('*', 'j1 theta1', '-0.227 n', '1.0, 0.169 n')
R('OTIS', 'oo1 ups1', '-0.64 n, -0.134 2n', '1.0, 0.64 n, 0.134 2n')
R('*', 'oo1 ups1', '-0.64 n, -0.134 2n, -0.15 2p', '1.0, 0.64 n, 0.134 2n, 0.15 2p')
R('*', 'm2 2n2 mu2 n2 nu2 lambda2 ms4 eps2 2sm6 2sn6 mp1 mp3 sn4', '-0.03731 n, 0.00052 2n', '1.0, -0.03731 n, 0.00052 2n')
R('OTIS', 'l2 sl4', '-0.25 2p, -0.11 2p-n, -0.04 n', '1.0, -0.25 2p, -0.11 2p-n, -0.04 n')
R('*', 'l2 sl4', '-0.25 2p, -0.11 2p-n, -0.037 n', '1.0, -0.25 2p, -0.11 2p-n, -0.037 n')
R('*', 'l2b', '0.441 n', '1.0, 0.441 n')
R('OTIS', 'k2 sk4 2sk6 kp1', '-0.3108 n, -0.0324 2n', '1.0, 0.2852 n, 0.0324 2n')
R('*', 'k2 sk4 2sk6 kp1', '-0.3108 n, -0.0324 2n', '1.0, 0.2853 n, 0.0324 2n')
R('*', 'gamma2', '0.147 2n-2p', '1.0, 0.147 2n-2p')
R('*', 'delta2', '0.505 2p, 0.505 n, -0.165 2n', '1.0, -0.505 2p, -0.505 n, 0.165 2n')
R('*', 'eta2 zeta2', '-0.436 n', '1.0, 0.436 n')
R('*', 's2', '0.00225 n', '1.0, 0.00225 n')
R('*', "m1'", '-0.01815 n', '1.0, -0.27837 n')
R('*', "q1'", '0.3915 n, 0.033 2n, 0.061 2p', '1.0, 0.3915 n, 0.033 2n, 0.06 2p')
R('*', "j1'", '-0.438 n, -0.033 2n', '1.0, 0.372 n, 0.033 2n')
R('*', "2n2'", '0.166 n', '1.0, 0.166 n')
R('*', "n2'", '0.1705 n, -0.0035 2n, -0.0176 2p', '1.0, 0.1705 n, -0.0035 2n, -0.0176 2p')
R('*', "l2'", '-0.2495 n', '1.0, 0.1315 n')
R('*', 'm3 e3', '-0.05644 n', '1.0, -0.05644 n')
R('*', 'j3 f3', '-0.464 n, -0.052 2n', '1.0, 0.387 n, 0.052 2n')
R('*', 'l3', '-0.373 2p, -0.164 2p-n', '1.0, -0.373 2p, -0.164 2p-n')

C('so1 2so3 2po1', {'o1': (1, -1)})
C('o2', {'o1': 2})
C('o3', {'o1': 3})
C('2k2', {'k1': 2})
C('tk1', {'k1': (1, -1)})
C('2oop1', {'oo1': 2})
C('oq2', {'o1': 1, 'q1': 1})
C('2oq1', {'o1': 2, 'q1': (1, -1)})
C('ko2', {'o1': 1, 'k1': 1})
C('opk1', {'o1': 1, 'k1': (1, -1)})
C('2ook1', {'oo1': 2, 'k1': (1, -1)})
C('kj2', {'k1': 1, 'j1': 1})
C('kjq1', {'k1': 1, 'j1': 1, 'q1': (1, -1)})
C('k3', {'k1': 1, 'k2': 1})
C('m4 mn4 mns2 2ms2 mnus2 mmus2 2ns2 n4 mnu4 mmu4 2mt6 2ms6 msn6 mns6 2mr6 msmu6 2mp3 2ms3 2mp5 2msp7 2(ms)8 2ms8', {'m2': 2})
C('msn2 snm2 nsm2', {'m2': (2, 0)})
C('mmun2 2mn2', {'m2': (3, 1)})
C('2sm2', {'m2': (1, -1)})
C('m6 2mn6 2mnu6 2mmu6 2nm6 mnnu6 mnmu6 3ms8 3mp7 2msn8 3ms5 3mp5 3ms4 3m2s2 3m2s10 2mn2s2', {'m2': 3})
C('m8 ma8 3mn8 3mnu8 3mmu8 2mn8 2(mn):8 3msn10 4ms10 2(mn)S10 4m2s12', {'m2': 4})
C('m10 4mn10 5ms12 4msn12 4mns12', {'m2': 5})
C('m12 5mn12 6ms14 5msn14', {'m2': 6})
C('m14', {'m2': 7})
C('mo3 no3 mso5', {'m2': 1, 'o1': 1})
C('no1 nso3', {'m2': 1, 'o1': (1, -1)})
C('mq3 nq3', {'m2': 1, 'q1': 1})
C('2mq3', {'m2': 2, 'q1': (1, -1)})
C('2no3', {'m2': 2, 'o1': (1, -1)})
C('2mo5 2no5 mno5 2mso7 2(ms):o9', {'m2': 2, 'o1': 1})
C('2mno7 3mo7', {'m2': 3, 'o1': 1})
C('mk3 nk3 msk5 nsk5', {'m2': 1, 'k1': 1})
C('mnk5 2mk5 2nk5 2msk7', {'m2': 2, 'k1': 1})
C('2mk3', {'m2': 2, 'k1': (1, -1)})
C('3mk7 2mnk7 2nmk7 3nk7 3msk9', {'m2': 3, 'k1': 1})
C('3msk7', {'m2': 3, 'k1': (1, -1)})
C('4mk9 3mnk9 2m2nk9 2(mn):k9 3nmk9 4msk11', {'m2': 4, 'k1': 1})
C('3km5', {'m2': 1, 'k1': 3})
C('mk4 nk4 mks2', {'m2': 1, 'k2': 1})
C('msk2 2smk4 msk6 snk6', {'m2': 1, 'k2': (1, -1)})
C('mnk6 2mk6 2msk8 msnk8', {'m2': 2, 'k2': 1})
C('mnk2 2mk2', {'m2': 2, 'k2': (1, -1)})
C('mkn2 nkm2', {'m2': (2, 0), 'k2': 1})
C('skm2', {'m2': (1, -1), 'k2': 1})
C('3mk8 2mnk8', {'m2': 3, 'k2': 1})
C('m2(ks):2', {'m2': 1, 'k2': 2})
C('2ms2k2', {'m2': 2, 'k2': (2, -2)})
C('mko5 msko7', {'m2': 1, 'k2': 1, 'o1': 1})
C('ml4 msl6', {'m2': 1, 'l2': 1})
C('2ml2', {'m2': 2, 'l2': (1, -1)})
C('2ml6 2ml2s2 2mls4 2msl8', {'m2': 2, 'l2': 1})
C('2nmls6 3mls6 2mnls6 3ml8 2mnl8 3msl10', {'m2': 3, 'l2': 1})
C('4msl12', {'m2': 4, 'l2': 1})


def find(kind, name, M1='perth5'):
    """the row of a constituent ('parents' dictionary for compound tides);
    None: no nodal modulation"""
    k = 'OTIS' if kind in ('OTIS', 'ATLAS', 'TMD3', 'netcdf') else kind
    for exact in (True, False):
        for kinds, names, typ, data in ROWS:
            if name in names and ((k in kinds or 'M1=' + M1 in kinds) if exact else '*' in kinds):
                return typ, data
    return ('C', PARENTS[name]) if name in PARENTS else None
