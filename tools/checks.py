# technique and level notes per claimed property; read by mkmanifest.py
_N=('Seeded search, not proof: it shows no violation in the runs made (counts in the evidence file). The reference is the same code called alone in a fresh process, so it decides '
    'independence, not numerical correctness. Trusts g++, GMP, MPFR, libstdc++ and the simulator in /verif/sim; schedules are sequentially consistent.')
def _c(t,n=''): return dict(technique='deterministic simulation with fault injection: '+t,level='exploration',level_note=(n+' '+_N).strip())
CHECKS['C01']=_c('seeded scheduler over simulated threads at every instrumented memory access and outgoing call; refinement against the call made alone, and a happens-before invariant on every access')
CHECKS['C02']=_c('seeded call histories in one process with stale stack/heap contents, failed and abandoned calls and simulated object lifetimes; refinement against a fresh process and a liveness invariant on every memory access')
CHECKS['C03']=_c('seeded nested interrupts at every instrumented step; refinement against the uninterrupted call')
CHECKS['C04']=_c('seeded changes of MXCSR/x87 control between and before calls; refinement plus environment-preservation invariant')
CHECKS['C05']=_c('seeded MPFR thread settings (precision, rounding, exponent range, flags); settings-preservation invariant and refinement')
CHECKS['C06']=_c('simulated GMP/MPFR and host allocators with conservation invariants over seeded call histories incl. rejected and abandoned calls')
CHECKS['C07']=_c('seeded allocation failures (single, persistent, intermittent) at every allocation; conservation and refinement')
CHECKS['C08']=_c('scripted adversarial and throwing generators behind the generator seam; refinement and in-run oracles')
CHECKS['C10']=_c('catalogue initialisers and exit-time destructors executed in seeded orders with calls placed between them; refinement against the call made from main')
CHECKS['C11']=_c('simulated streams, locales and formatting state with seeded short writes, failures and exceptions; prefix and refinement oracles')
import os as _os
if _os.path.exists(ROOT+'/sim/c09.cpp'):
    CHECKS['C09']=_c('process nodes crashing and restarting over a simulated disk with torn, short, lost, duplicated, padded and corrupted writes; reference model of the text form and of the uninterrupted run')
if _os.path.exists(ROOT+'/sim/c12.cpp'):
    CHECKS['C12']=_c('seeded operator faults (position, operand class, kind) injected into sequences and interleavings of self-tests; reference expectation per self-test')
