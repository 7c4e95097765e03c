"""Property -> verification tasks (contracts), executable contracts, trusted base."""
from harness import Spec, ALL
from contracts import tm, leaf, util, cti, state, setup, roe, quiet, noise, bridge

REALS = "machine doubles are treated as real numbers (rounding and overflow are outside the contracts; the replay harness monitors them)"
INTS = "machine ints are treated as mathematical integers"
CLANG = "clang's AST of the current source is the program that runs"
VF = "the verifier in /verif/vf and z3"
BASE = [VF, CLANG, REALS, INTS]


class Task:
    def __init__(self, name, fn, contracts=None, kinds=None, budget=500, invariants=None, thorough_only=False):
        self.name, self.fn, self.contracts, self.kinds, self.budget = name, fn, contracts, kinds, budget
        self.invariants, self.thorough_only = invariants, thorough_only


class Prop:
    program = None                       # the sources, if other than the library's

    def __init__(self, tasks=(), replay=(), trusted=(), assumptions=(), bounded=()):
        self.tasks, self.replay = list(tasks), list(replay)
        self.trusted, self.assumptions, self.bounded = BASE + list(trusted), list(assumptions), list(bounded)


CFV = "CCDPhase::cloud_fractional_volume_from_electrons by its contract (range, monotone: discharged under P14)"
FRAC = "TrapInstantCapture::fraction_traps_exposed_per_fractional_volume by its contract (discharged under P15)"
IC, SC = "TrapManagerInstantCapture", "TrapManagerSlowCapture"


def exch(cls, kinds, budget=500):
    short = {IC: "IC", SC: "SC", IC + "Continuum": "ICCo", SC + "Continuum": "SCCo"}[cls]
    out = [Task("exchange %s uniform" % short, tm.exchange(cls, True), tm.LEAF, kinds, budget)]
    if cls == IC: out.append(Task("exchange %s surface" % short, tm.exchange(cls, False), tm.LEAF, kinds, budget))
    return out


NOT_PROVED = "not under a discharged contract yet: the executable contract is searched over random cases only"


def P01():
    return Prop(exch(IC, {"conserve", "bounds", "pre", "div"}), [Spec("tm.cpp", ["P01"])], [CFV, FRAC],
                bounded=["the continuum manager's exchange: replay search only"])


def P02():
    return Prop([], [Spec("tm.cpp", ["P02"])], bounded=[NOT_PROVED])


def P03():
    return Prop([], [Spec("tm.cpp", ["P03"])], bounded=[NOT_PROVED])


def P04():
    return Prop(exch(IC, {"available", "pre", "div"}), [Spec("tm.cpp", ["P04"])], [CFV, FRAC], bounded=["slow-capture and continuum managers: replay search only"])


def P05():
    return Prop(exch(IC, {"inv", "pre", "div"}), [Spec("tm.cpp", ["P05"])], [CFV, FRAC], bounded=["slow-capture and continuum managers, pruning: replay search only"])


def P06():
    return Prop(exch(IC, {"bounds"}), [Spec("tm.cpp", ["P06"], budget=6), Spec("cti.cpp", ["P06"], budget=8, omp=True)], [CFV, FRAC],
                bounded=["slow-capture and continuum managers, pruning, whole-image clocking: replay search only"])


def P07():
    ops = [Task("%s of %s" % (o, c), state.one(c, o)) for o in state.OPS for c in (IC, SC, IC + "Continuum", SC + "Continuum")]
    ops += [Task("%s of all managers" % o, state.collection(o)) for o in state.OPS[:3]]
    return Prop(ops + [Task("nothing else touches saved states", state.untouched)],
                [Spec("tm.cpp", ["P07"], budget=6), Spec("cti.cpp", ["P07"], budget=6, omp=True)], [],
                ["the zeroth and empty watermark are zero, as every constructor leaves them (P27)"])


def P08():
    return Prop([], [Spec("cti.cpp", ["P08"], budget=20, omp=True)], bounded=[NOT_PROVED])


EXPRESS = {"post", "frame", "inv", "bounds", "size", "abort"}
NONLINEAR = "products of non-negative factors, and cancellation of a positive factor, as instances of real arithmetic"


def P09():
    return Prop([Task("ROE express matrix, " + t, roe.standard(m), kinds=EXPRESS) for m, t in
                 (("plain", "traps not emptied"), ("every", "traps emptied, all transfers computed"), ("first", "traps emptied, first transfers apart"))],
                [Spec("roe.cpp", ["P09"])], [NONLINEAR, "arange at its calls: its contract (P20)"],
                ["preconditions: at least one row; express, offsets and prescan not negative; overscan start -1 or at least 1 (the constructor's: P26)"])


def P10():
    return Prop([Task("ROEChargeInjection express matrix", roe.injection, kinds=EXPRESS), Task("ROEChargeInjection stored states", roe.injection_saves)],
                [Spec("roe.cpp", ["P10"])], [NONLINEAR], ["preconditions: at least one row; express, offsets and prescan not negative; overscan start -1 or at least 1 (the constructor's: P26)"])


def P11():
    return Prop([Task("ROETrapPumping express matrix", roe.pumping, kinds=EXPRESS), Task("ROETrapPumping stored states", roe.pumping_saves)],
                [Spec("roe.cpp", ["P11"])], ["ROE::set_express_matrix_from_rows_and_express at its call: its contract (P09)", "std::valarray selection by a mask: the elements under it, in order"],
                ["preconditions: at least one row and one pump, express not negative, no window offset"])


def P12():
    return Prop([Task("ROE::set_store_trap_states_matrix", roe.save_states)], [Spec("roe.cpp", ["P12"])], [],
                ["preconditions: at least one pass and one row; no multiplier negative (P09)"])


def P13():
    return Prop([Task("ROE::set_clock_sequence, as many steps as phases", roe.clock("ROE", True)),
                 Task("ROE::set_clock_sequence, twice as many steps as phases", roe.clock("ROETrapPumping", False))], [Spec("roe.cpp", ["P13"])], [],
                ["preconditions: at least one phase; as many steps as phases, or twice as many and release not forced (the constructors': P26)"])


POW = "libm pow by axioms: non-negative and monotone in a non-negative base, fixed points 0, 1, exponents 0, 1"
EXP = "libm exp by axioms: positive, strictly monotone, exp(0) = 1, exp(x) >= 1 + x"


def P14():
    return Prop([Task("CCDPhase::cloud_fractional_volume_from_electrons", leaf.cloud)], [Spec("leaf.cpp", ["P14"])], [POW],
                ["preconditions: full well above zero and above the notch, fill power positive, first-electron fill in [0, 1]"])


def P15():
    return Prop([Task("TrapInstantCapture::fraction_traps_exposed_per_fractional_volume", leaf.exposed),
                 Task("TrapInstantCapture constructor", leaf.density)], [Spec("leaf.cpp", ["P15"])], [],
                ["preconditions: 0 <= none exposed <= full exposed < 1; ranges ordered within [0, 1]"])


def P16():
    return Prop([Task("TrapManagerInstantCapture::setup", leaf.instant_setup(IC)), Task("TrapManagerSlowCapture::setup", leaf.instant_setup(SC)),
                 Task("TrapInstantCapture::fill_fraction_from_time_elapsed", leaf.fill_fraction),
                 Task("TrapSlowCapture constructor", leaf.slow_ctor)], [Spec("leaf.cpp", ["P16"])], [EXP],
                ["preconditions: positive dwell and release times, capture times not negative"])


def P17(): return Prop([], [Spec("leaf.cpp", ["P17"], budget=15)], bounded=[NOT_PROVED])
CLOCKFN = "clock_charge_in_one_direction at its calls: it leaves its input alone and its result, of the same shape, is determined by the image and the arguments (its own body: P08, P23)"
ADDFN = "add_cti at its calls: it leaves its input alone and its result, of the same shape, is determined by the image and the settings (its body: P18)"


def P18(): return Prop([Task("add_cti", cti.add_cti)], [Spec("cti.cpp", ["P18"], budget=15, omp=True)], [CLOCKFN])
def P19(): return Prop([Task("remove_cti", cti.remove_cti)], [Spec("cti.cpp", ["P19"], budget=15, omp=True)], [ADDFN])
def P20():
    return Prop([Task(n, f) for n, f in (("clamp", util.clamp), ("transpose", util.transpose), ("flatten", util.flatten), ("arange", util.arange))],
                [Spec("util.cpp", ["P20"], sources=["util", "read_noise"])], [], ["preconditions: low <= high; step positive; images rectangular with at least one row"])
def P21(): return Prop([], [Spec("util.cpp", ["P21"], sources=["util", "read_noise"])], bounded=[NOT_PROVED])
def P22():
    sizes = [(None, None, "three rows and columns or more"), (2, None, "two rows"), (None, 2, "two columns"), (2, 2, "two by two")]
    return Prop([Task("determine_read_noise_model, smoothing %s, %s" % ("on" if sm else "off", t), noise.estimate(sm, h, w)) for sm in (False, True) for h, w, t in sizes],
                [Spec("util.cpp", ["P22"], sources=["util", "read_noise"], budget=15, omp=True)], [],
                ["the three arrays do not overlap and hold rows * columns elements, whose number fits an int", "memory for the scratch array can be allocated",
                 "a parallel loop runs each iteration once, on some thread, with the variables of its private clause its own (OpenMP)"])



def P23(): return Prop([], [Spec("cti.cpp", ["P23"], budget=15, omp=True)], bounded=[NOT_PROVED])
def P24():
    p = Prop([Task("bridge, traps in %s" % t, bridge.bridge(*on)) for on, t in
              (((True, False), "the parallel direction"), ((False, True), "the serial direction"), ((True, True), "both directions"))],
             [Spec("bridge.cpp", ["P24"], sources=ALL + ["interface"], budget=15, omp=True)],
             ["constructors of the electronics and traps at their calls: recorded with the arguments they are given (their effect: P15, P16, P26)",
              "the library's add_cti at its call: recorded with what it is given; its result has the shape of its input (P18)"],
             ["the arrays have the sizes that the counts say; at least one row, column, step and phase", "the Cython wrapper between Python and the bridge is not included"])
    p.program = bridge.program
    return p


def P25(): return Prop([Task("nothing but printed text depends on the verbosity", quiet.only_printing)], [Spec("cti.cpp", ["P25"], budget=15, omp=True)],
                       bounded=["that printing itself never fails: replay with sanitizers only"])
def P26():
    return Prop([Task("assignment", roe.assign(False)), Task("assignment to itself", roe.assign(True))] +
                [Task("%s constructor" % c, roe.construct(c)) for c in ("ROE", "ROEChargeInjection", "ROETrapPumping")], [Spec("roe.cpp", ["P26"])], [],
                ["at least one dwell time; an even number of them for trap pumping"])


def P27():
    return Prop([Task("TrapManager%s constructor" % c, setup.constructor(k, c)) for k, c in setup.KINDS] +
                [Task("TrapManager%s::setup" % c, setup.setup_of(k, c)) for k, c in setup.KINDS] +
                [Task("TrapManagerManager constructor", setup.collection)], [Spec("cti.cpp", ["P27"], omp=True)], [],
                ["as many shares as phases, and at least one dwell time for each phase"])


def P28(): return Prop([], [Spec("py28.py", ["P28"], kind="python")], bounded=["Python: outside the C++ verifier's reach; executable contract on the real sources only"])


PROPS = {k: v for k, v in globals().items() if k[0] == "P" and k[1:].isdigit()}
