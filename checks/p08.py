"""P08: integer to float"""
from vf import check, terms as t, fp
from vf.check import Goal, want_f

FM = {"hf": fp.F16, "sf": fp.F32, "df": fp.F64, "tf": fp.F128}


def goals(ck):
    ck.bounds += ["every integer of each width"]
    codes = [check.host(), check.host(False)]
    for tgt in ["thumbv6m-none-eabi", "riscv32i-unknown-none-elf"] + ([] if ck.quick else [
            "i686-unknown-linux-gnu", "aarch64-unknown-linux-gnu", "wasm32-unknown-unknown", "powerpc-unknown-linux-gnu"]):
        try:
            codes.append(check.cross(tgt))
        except Exception as e:
            ck.note_error("%s: %s" % (tgt, str(e)[:300]))
    for c in codes:
        for un in ("", "un"):
            for iw, w in (("si", 32), ("di", 64), ("ti", 128)):
                for fk, f in FM.items():
                    fn = "__float%s%s%s" % (un, iw, fk)
                    if c.func(fn):
                        ck.add(Goal(c, fn, want_f(f, lambda a, f=f, un=un: fp.from_int(f, a[0], un == "")), timeout=120))
