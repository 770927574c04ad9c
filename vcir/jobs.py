"""which contract harnesses decide which property"""
import os, hashlib
OBL_TIMEOUT = 60
class Job:
    def __init__(self, src, fn, defs='', title=None, bounds=False, race=False, ginit=False, thorough=False, cost=1, min=1, timeout=None, exec_limit=None, expand=600):
        self.src = src; self.fn = fn; self.defs = defs.split() if isinstance(defs, str) else list(defs); self.bounds = bounds; self.race = race
        self.ginit = ginit; self.thorough = thorough; self.cost = cost; self.min = min; self.timeout = timeout; self.expand = expand; self.exec_limit = exec_limit
        self.title = ('%s:%s %s' % (src, fn, ' '.join(self.defs))).strip()
        self.key = '%s_%s_%s' % (src, fn, hashlib.md5((self.title + str(bounds) + str(race)).encode()).hexdigest()[:8])
    def path(self, here): return os.path.join(here, 'harness', self.src + '.cc')
    def spec(self):
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        return {'path': self.path(here), 'fn': self.fn, 'defs': self.defs, 'bounds': self.bounds, 'race': self.race, 'ginit': self.ginit, 'key': self.key, 'timeout': self.timeout, 'exec_limit': self.exec_limit}
TRUSTED = ['clang++-18 -O0 code generation to LLVM IR and opt-18 (sroa/mem2reg)', 'the symbolic executor and prover in /verif/vcir', 'z3 (integer and real arithmetic)',
           'stub headers in /verif/stubs (contracts of Kokkos views, parallel loops, reductions)']
ASSUME = ['floating-point numbers are treated as mathematical reals; float literals are the rationals they denote', 'integers do not overflow',
          'square-root arguments are non-negative and denominators non-zero', 'iterations of one parallel loop do not interfere (proved by R01 for the finite-volume solvers and the boundary fill)']
PROPS = {}
def P(pid, jobs, **k): PROPS[pid] = dict(jobs=jobs, **k)
RS4 = ('RIEMANN_APPROX', 'RIEMANN_LLF', 'RIEMANN_HLL', 'RIEMANN_HLLC')
def rs(d, r, extra=''): return ('-DDIM=%d -DRS=%s %s' % (d, r, extra)).strip()
D23 = (2, 3)
P('H01', [Job('prim', f) for f in 'hydro2 hydro3 sdm2 sdm3 mhd2 mhd3 mhd2iso mhd3iso eos_h2 eos_h3 eos_m2 eos_m3'.split()])
P('H02', [Job('riemann', 'consist', rs(d, r)) for d in D23 for r in RS4])
P('H03', [Job('riemann', 'upwind', rs(d, r, e)) for d in D23 for r in ('RIEMANN_HLL', 'RIEMANN_HLLC') for e in ('', '-DLEFTWARD')]
  + [Job('riemann', 'contact', rs(d, 'RIEMANN_APPROX')) for d in D23] + [Job('riemann', 'contact', rs(d, 'RIEMANN_HLLC', '-DRS_HLLC=1')) for d in D23]
  + [Job('riemann', 'contactwave', rs(d, r)) for d in D23 for r in ('RIEMANN_APPROX', 'RIEMANN_HLLC')]
  + [Job('riemann', 'model', rs(d, 'RIEMANN_LLF', '-DDEF_LLF')) for d in D23] + [Job('riemann', 'model', rs(d, 'RIEMANN_HLL', '-DDEF_HLL')) for d in D23]
  + [Job('riemann', 'model', rs(d, 'RIEMANN_HLLC', '-DDEF_HLLC -DCASE=%d' % c), cost=3) for d in D23 for c in range(4)])
P('H04', [Job('riemann', 'mirror', rs(d, r)) for d in D23 for r in ('RIEMANN_LLF', 'RIEMANN_HLL')]
  + [Job('riemann', 'mirror', rs(d, 'RIEMANN_HLLC', '-DRS_HLLC=1 -DCASE=%d -DUORD=%d -DCORD=%d' % (c, u, o)), cost=2) for d in D23 for c in (2, 3) for u in (0, 1) for o in (0, 1)]
  + [Job('riemann', 'waveorder')] + [Job('riemann', 'transverse', rs(d, r)) for d in D23 for r in RS4])
STEP = [(d, i, p) for d in D23 for i in (0, 1) for p in (0, 1)]
P('H05', [Job('hydro_step', 'step', '-DDIM=%d -DIMPL=%d -DGRAV=0 -DPAR=%d' % x, min=x[0] + 2) for x in STEP])
P('G01', [Job('hydro_step', 'step', '-DDIM=%d -DIMPL=%d -DGRAV=1 -DPAR=%d' % x, min=x[0] + 2) for x in STEP],
  assume=['the updated density at which the gravity source is applied is at least smallr'])
P('H07', [Job('slope', f, cost=5 if f[:5] == 'array' else 1) for f in 'scalar_h2 scalar_m2 scalar_h3 scalar_m3 bounds2 bounds3 boundsm2 boundsm3 vec_h2 vec_h3 vec_m2 vec_m3 face_m2 face_m3 array_m2 array_m3'.split()])
P('H10', [Job('boundary_face', 'face', '-DDIM=%d -DMHD=%d -DFACE=%d' % (d, m, f)) for d in D23 for m in (0, 1) for f in range(2 * d)]
  + [Job('boundary_fill', 'fill', '-DDIM=2 -DMHD=%d' % m, timeout=200, cost=8) for m in (0, 1)]
  + [Job('boundary_fill', 'fill', '-DDIM=3 -DMHD=%d -DZREG=%d -DYREG=%d' % (m, z, y), timeout=200, cost=9) for m in (0, 1) for z in range(3) for y in range(3)],
  assume=['the number of cells in each direction is at least the ghost width'])
P('H11', [Job('halo', 'halo', '-DDIM=%d -DMHD=%d%s' % (d, m, r), timeout=250, cost=9 if d == 3 else 4) for m in (0, 1) for d in D23 for r in ([''] if d == 2 else [' -DREG=%d' % k for k in range(3)])] + [Job('time', 'globalstep', '-DWITH_MPI')]
  + [Job('sdm_halo', 'halo', '-DDIM=%d -DORD=%d -DREG=%d' % (d, n, k), timeout=250, cost=7 if d == 3 else 4, thorough=(d, n) == (3, 2)) for d, n in ((2, 1), (2, 2), (2, 3), (3, 1), (3, 2)) for k in range(3)],
  assume=['the number of cells in each direction of every process is at least the ghost width', 'MPI calls stand under contract: cartesian topology in row-major rank order, a message arrives unchanged at the matching receive, reductions combine the values of all processes', 'all processes run the same program on their own piece'])
SOLVERS = [('Hydro_Muscl_%dD' % d, d, d + 2, 2, 0) for d in D23] + [('MHD_Muscl_%dD' % d, d, 8, 3, 1) for d in D23] + [('Hydro_SDM_%dD_degree3' % d, d, d + 2, 1, 0) for d in D23]
RIEM = [('approx', 'APPROX'), ('llf', 'LLF'), ('hll', 'HLL'), ('hllc', 'HLLC'), ('hlld', 'HLLD'), ('other', 'APPROX')]
P('C02', [Job('setup', 'setup', '-DSOLVER=%s -DDIM=%d -DNV=%d -DGW=%d -DMHD=%d -DRIEM=%s -DRTYPE=RIEMANN_%s -DIMPL=%d%s' % (s + r + (k % 4, m))) for k, (s, r) in enumerate(zip(SOLVERS, RIEM)) for m in ('', ' -DWITH_MPI')] + [Job('setup', 'defaults', m) for m in ('', '-DWITH_MPI')],
  assume=['the parameter file is read by the configuration map as the value set for a key, or its default (contract)', 'number of processes equals that of the process grid'])
P('H09', [Job('cfl', 'cfl', '-DDIM=%d -DMHD=%d -DGRAV=%d -DPAR=%d' % (d, m, g, p)) for d in D23 for m, g in ((0, 0), (0, 1), (1, 0)) for p in ((0,) if m else (0, 1))] + [Job('cfl', 'quad')])
P('T01', [Job('time', f) for f in ('clip', 'finish', 'advance', 'schedule')] + [Job('iterate', 'order', '-DDIM=%d -DMHD=%d -DPAR=%d -DOUT=%d' % (d, m, p, o)) for d in D23 for m in (0, 1) for p in (0, 1) for o in ((0, 1) if p == 0 else (1,))])
MR3 = ('RIEMANN_LLF', 'RIEMANN_HLL', 'RIEMANN_HLLD')
P('M01', [Job('speeds_mhd', 'speeds')] + [Job('riemann_mhd', 'consist', '-DRS=%s%s' % (r, i)) for r in MR3 for i in ('', ' -DISO=1')] + [Job('riemann_mhd', 'upwind', '-DRS=RIEMANN_HLL' + e) for e in ('', ' -DLEFTWARD')] + [Job('riemann_mhd', 'upwind', '-DRS=RIEMANN_HLLD')]
  + [Job('riemann_mhd', f, '-DRS=' + r, cost=3) for f in ('mirror', 'transverse') for r in MR3[:2]] + [Job('riemann_mhd', 'model', '-DRS=RIEMANN_LLF -DDEF_LLF'), Job('riemann_mhd', 'model', '-DRS=RIEMANN_HLL -DDEF_HLL')]
  + [Job('riemann_mhd', 'model', '-DRS=RIEMANN_HLLD -DDEF_HLLD -DCASE=%d -DDEG=%d%s' % (c, g, b), expand=3, cost=2) for c in range(6) for g, b in ((0, ''), (1, ''), (2, ''), (3, ''), (0, ' -DBN0=1')) if c % 5 or (g == 0 and not b)])
P('M02', [Job('emf', 'equal', '-DDIR=EMF' + d) for d in 'XYZ'] + [Job('emf', 'cyclic', '-DDIR=EMF' + d) for d in 'XY'] + [Job('emf', 'model', '-DXC=%d -DYC=%d' % (x, y), expand=3) for x in range(3) for y in range(3)])
P('M03', [Job('mhd_step', 'divb', '-DDIM=%d -DIMPL=%d' % (d, i)) for d in D23 for i in range(3)])
P('M04', [Job('mhd_step', 'step', '-DDIM=%d -DIMPL=%d%s' % (d, i, z), min=8, cost=9 if d == 3 else 2) for d in D23 for i in range(3) for z in ('', ' -DSLOPE0=1')],
  assume=['rotating-frame rate Omega0 is zero', 'pressure floor: smallp in the 3D variants 0 and 1, smallp times density elsewhere (as coded)'])
S6 = range(1, 7)
P('S01', [Job('sdm_geom', f, '-DORD=%d' % n) for n in S6 for f in 'points tensor2 tensor3 matrices2 matrices3'.split()], assume=['values of the point tables are claimed to 1e-12 (the code uses decimal and M_PI constants)'])
P('S02', [Job('sdm_op', 'op', '-DDIM=2 -DORD=%d' % n, cost=n) for n in range(1, 6)] + [Job('sdm_op', 'op', '-DDIM=2 -DORD=6', cost=6, thorough=True)]
  + [Job('sdm_op', 'op', '-DDIM=3 -DORD=%d' % n, cost=3 * n) for n in range(1, 4)] + [Job('sdm_op', 'op', '-DDIM=3 -DORD=4', cost=12, thorough=True, timeout=200)],
  assume=['point functions of the Euler system and the Riemann flux stand under contract as functions of the state (values: E01, H01, H02, H03)', 'any interpolation matrices (values: S01)', 'no viscosity'])
P('S03', [Job('sdm_rk', 'rk', '-DDIM=%d -DORD=%d -DSCHEME=%d' % (d, n, k)) for d, n in ((2, 1), (2, 2), (2, 3), (3, 1), (3, 2)) for k in range(1, 5)],
  assume=['the spatial operator stands under contract as any function of the state (S02)', 'the boundary fill stands under contract as any values in the ghost cells (S04)', 'limiter and positivity switched off'])
P('S04', [Job('sdm_boundary_face', 'face', '-DDIM=%d -DORD=%d -DFACE=%d' % (d, n, f), cost=n) for d, n in ((2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2)) for f in range(2 * d)]
  + [Job('sdm_boundary_fill', 'fill', '-DDIM=2 -DORD=%d -DYREG=%d' % (n, y), cost=5, timeout=200) for n in (1, 2, 3) for y in range(3)]
  + [Job('sdm_boundary_fill', 'fill', '-DDIM=3 -DORD=%d -DZREG=%d -DYREG=%d' % (n, z, y), cost=4 + 4 * n, timeout=200) for n in (1, 2) for z in range(3) for y in range(3)])
P('S05', [Job('sdm_cfl', 'cfl', '-DDIM=%d -DORD=%d' % x, cost=x[1]) for x in ((2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2), (3, 3))], assume=['the optional rescaling of the time step is switched off', 'density at least 1e-8'])
P('E01', [Job('euler', f, '-DDIM=%d' % d) for d in D23 for f in ('pressure', 'flux', 'visc', 'characx', 'characy') + (('characz',) if d == 3 else ())], assume=['density at least 1e-8'])
SAFE = [('hydro_step', '-DDIM=%d -DIMPL=%d -DGRAV=1' % (d, i)) for d in D23 for i in (0, 1)] + [('mhd_step', '-DDIM=%d -DIMPL=%d' % (d, i)) for d in D23 for i in range(3)] + \
  [('boundary_face', '-DDIM=%d -DMHD=%d -DFACE=%d' % (d, m, f)) for d in D23 for m in (0, 1) for f in range(2 * d)] + [('cfl', '-DDIM=%d -DMHD=%d -DGRAV=%d' % (d, m, g)) for d in D23 for m, g in ((0, 0), (0, 1), (1, 0))] + \
  [('sdm_op', '-DDIM=%d -DORD=2' % d) for d in D23] + [('sdm_cfl', '-DDIM=%d -DORD=2' % d) for d in D23] + [('sdm_boundary_face', '-DDIM=%d -DORD=2 -DFACE=%d' % (d, f)) for d in D23 for f in range(2 * d)] + \
  [('halo', '-DDIM=%d -DMHD=%d' % (d, m)) for d in D23 for m in (0, 1)] + [('sdm_halo', '-DDIM=%d -DORD=2' % d) for d in D23]
P('R01', [Job(s, 'safe', d, race=True) for s, d in SAFE])
P('R02', [Job(s, 'safe', d, bounds=True) for s, d in SAFE])
