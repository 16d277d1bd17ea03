"""property id -> check"""
import importlib
import traceback
from . import build
from .report import Report

CHECKS = {
    "F01": ("p_field", "check_f01"),
    "F02": ("p_pow", "check_f02"),
    "F03": ("p_field", "check_f03"),
    "F04": ("p_ct", "check_f04"),
    "U01": ("p_par", "check_u01"),
    "P04": ("p_proof", "check_p04"),
    "P02": ("p_proof", "check_p02"),
    "P01": ("p_proof", "check_p01"),
    "P03": ("p_proof", "check_p03"),
    "V01": ("p_rec", "check_v01"),
    "V02": ("p_rec", "check_v02"),
    "V03": ("p_rec", "check_v03"),
    "V04": ("p_rec", "check_v04"),
    "E01": ("p_err", "check_e01"),
    "G01": ("p_gadgets", "check_num"),
    "G02": ("p_gadgets", "check_bool"),
    "G03": ("p_gadgets", "check_words"),
    "G05": ("p_rescue", "check_rescue"),
    "G06": ("p_ecc", "check_ecc"),
    "G04": ("p_sha", "check_sha"),
    "S01": ("p_core", "check_s01"),
    "S02": ("p_core", "check_s02"),
    "D02": ("p_shape", "check_d02"),
    "D01": ("p_core", "check_d01"),
    "D03": ("p_dev", "check_d03"),
    "D04": ("p_dev", "check_d04"),
    "C01": ("p_curve", "check_c01"),
    "C02": ("p_curve", "check_c02"),
    "C03": ("p_curve", "check_c03"),
}


def run(pid):
    R = Report(pid)
    mod, fn = CHECKS[pid]
    try:
        from .interp import Prog
        prog = Prog(build.extract())
        m = importlib.import_module("sa." + mod)
        R.run(fn, getattr(m, fn), R, prog)
    except Exception as e:
        traceback.print_exc()
        R.check("analysis:extract", False, "%s: %s" % (type(e).__name__, str(e)[-1500:]))
    return R.finish(trusted=TRUSTED)


TRUSTED = [
    "rustc nightly front end (name resolution, type checking, MIR construction)",
    "models of library functions in sa/lib.py",
    "abstract domains in sa/terms.py and sa/intdom.py",
]
