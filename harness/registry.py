"""Which specifications and suites decide which property."""
from common import check_model, run_suite, thorough
from cases import enumerated
from explore import explored
import suites_data as sd
import suites_expr as se
import suites_frame as sf
import suites_history as sh
import suites_logit as sl
import suites_model as sm


class Check:
    def __init__(self, technique, *parts, level="model_checking", note=""):
        self.technique, self.parts, self.level = technique, parts, level
        self.note = note or ("Programs of operations are run on the real code; every event of the recorded traces is judged "
                             "by the TLA+ specification, within the bounds in DESIGN.md.")

    def run(self, report):
        for p in self.parts:
            p(report)


def spec(module, cfg=None, deep=None, **kw):
    """A specification to be checked exhaustively"""
    def part(report):
        check_model(report, module, ((deep if thorough() else None) or cfg or module + ".cfg"), **kw)
    return part


def suite(name, make, quick, deep, **kw):
    def part(report):
        run_suite(report, name, make(deep if thorough() else quick), **kw)
    return part


TRACE = "TLA+ specification; traces of the implementation checked against it with TLC"

CHECKS = {
    "C01": Check(TRACE, suite("rows", sl.c01_rows, 400, 8000), suite("parallel", sl.c01_parallel, 60, 800, jit=True),
                 enumerated("C01", "MCLogit", "MCLogit.cfg", "MCLogitDeep.cfg")),
    "C02": Check(TRACE, suite("rows", sl.c02_rows, 500, 8000), suite("parallel", sl.c02_parallel, 60, 800, jit=True),
                 enumerated("C02", "MCLogit", "MCLogitNests.cfg", "MCLogitNestsDeep.cfg")),
    "C03": Check(TRACE, suite("picks", sl.c03_picks, 200, 3000), suite("draws", sl.c03_draws, 150, 2500),
                 suite("parallel", sl.c03_parallel, 60, 600, jit=True), suite("statistics", sl.c03_statistics, 2, 20, jit=True),
                 spec("MCSearch", deep="MCSearchDeep.cfg"),
                 explored("MCPick", 2500, 20000, interp="logit", deep_cfg="MCPickDeep.cfg")),
    "C04": Check(TRACE, suite("histories", sl.c04_histories, 100, 1500),
                 suite("parallel", sl.c04_parallel, 80, 800, jit=True),
                 spec("MCWorkers", deep="MCWorkersDeep.cfg"), spec("MCWorkers", "MCWorkersOne.cfg"),
                 explored("MCDraws", 1200, 20000, interp="logit", deep_cfg="MCDrawsDeep.cfg")),
    "C05": Check(TRACE, suite("trees", sm.c05_random, 200, 2000), explored("MCTree", 2500)),
    "C06": Check(TRACE, suite("utilities", sm.c06_random, 200, 2000), suite("placement", sm.c06_placement, 100, 1000),
                 suite("debug", sm.c06_debug, 60, 1000),
                 explored("MCPlace", 2000, 20000, deep_cfg="MCPlaceDeep.cfg")),
    "C07": Check(TRACE, suite("expressions", se.c07_random, 120, 2000), suite("shapes", se.c07_shapes, 1, 1),
                 suite("names", se.c07_names, 30, 400),
                 explored("MCExpr", 4000, 20000, deep_cfg="MCExprDeep.cfg")),
    "C08": Check(TRACE, suite("rejections", se.c08_rejections, 150, 2500), suite("constructs", se.c08_each, 1, 12),
                 explored("MCReject", 7000, 40000, deep_cfg="MCRejectDeep.cfg")),
    "C09": Check(TRACE, suite("readiness", sh.c09_matrix, 1, 1), suite("symbols", sh.c09_symbols, 120, 2000), suite("bounds", sh.c09_values, 120, 2000), explored("MCReady", 3000)),
    "C10": Check(TRACE, suite("histories", sh.c10_histories, 160, 2500), explored("MCGroups", 2000)),
    "C11": Check(TRACE, suite("copies", sh.c11_copies, 120, 2000), suite("precision", sh.c11_precision, 60, 1000), explored("MCCopies", 2000, 30000, deep_cfg="MCCopiesDeep.cfg")),
    "C12": Check(TRACE, suite("groups", sh.c12_groups, 120, 2000), suite("shared", sh.c12_shared, 150, 2000), suite("partial", sh.c12_partial, 80, 1000), explored("MCGroups", 2000)),
    "C13": Check(TRACE, suite("assignments", sd.c13_assignments, 250, 4000), suite("nobody", sd.c13_without_units, 60, 1000),
                 explored("MCAlign", 1000, 20000, deep_cfg="MCAlignDeep.cfg")),
    "C14": Check(TRACE, suite("lookups", sf.c14_lookups, 300, 5000),
                 explored("MCLinks", 2000, 20000, interp="frame", deep_cfg="MCLinksDeep.cfg")),
    "C16": Check(TRACE, suite("derived", sf.c16_derived, 300, 5000),
                 explored("MCDerive", 2500, 20000, interp="frame", deep_cfg="MCDeriveDeep.cfg")),
    "C15": Check(TRACE, suite("aggregations", sf.c15_aggregations, 250, 4000),
                 explored("MCLinks", 2000, 20000, interp="frame", deep_cfg="MCLinksDeep.cfg")),
    "C19": Check(TRACE, suite("evaluate", sf.c19_evaluate, 150, 3000), suite("pivot", sf.c19_pivot, 150, 3000),
                 explored("MCEval", 2500, 20000, interp="frame", deep_cfg="MCEvalDeep.cfg")),
    "C18": Check(TRACE, suite("links", sf.c18_links, 250, 5000),
                 explored("MCRelink", 3000, 20000, interp="frame")),
    "C17": Check(TRACE, suite("fills", sf.c17_fills, 200, 4000),
                 explored("MCFills", 2500, 20000, interp="frame")),
}
