"""Which families of executions decide which property."""
import fam_cma
import fam_cmamc
import fam_dump
import fam_evo
import fam_exchange
import fam_folder
import fam_grad
import fam_laws
import fam_lock
import fam_nm
import fam_nmmc
import fam_optim
import fam_optimmc
import fam_prob
import fam_basis
import fam_same
import fam_pulse
import fam_pulsemc
import fam_super
import fam_tools

ASSUMPTIONS = [
    "time is the virtual clock of the harness; the library reads it through datetime and time",
    "figures of merit are integers, controls are compared up to 1e-8 (1e-4 for the single-precision AD controls)",
    "TLC, the Python interpreter and numpy are trusted",
]

MAP = {p: [fam_optim.run] for p in fam_optim.TAGS}


def also(f, *props):
    for p in props:
        MAP.setdefault(p, []).append(f)


also(fam_optimmc.run, *sorted(fam_optimmc.OWN))
also(fam_nm.run, "C08", "C09", "C10", "C13", "C16")
also(fam_nmmc.run, "C16")
also(fam_cma.run, "C08", "C09", "C10", "C17")
also(fam_cmamc.run, "C17")
also(fam_pulse.run, "C18", "C19", "C20", "C21", "C03", "C11")
also(fam_pulsemc.run, "C18", "C19")
also(fam_super.run, "C21", "C15")
also(fam_dump.run, "C22", "C03")
also(fam_folder.run, "C23")
also(fam_exchange.run, "C24")
also(fam_lock.run, "C14", "C15")
also(fam_evo.run, "C26")
also(fam_grad.run, "C27")
also(fam_tools.run, "C28")
also(fam_laws.run, "C26", "C27", "C28", "C29", "C30")
also(fam_prob.run, "C29")
also(fam_basis.run, "C30")
also(fam_same.run, "C31")


def run(prop, tier, seed):
    out = []
    for f in MAP[prop]:
        r = f(prop, tier, seed)
        out += r if isinstance(r, list) else [r]
    return out


def DESCRIBE(prop):
    return ("TLA+ specification checked with TLC; executions of the real code validated against it",
            "Bounded: the design model is explored exhaustively within the constants given in DESIGN.md, the code is bound to "
            "it by the executions counted in the evidence file; every clause of the specification is evaluated at every event.")
