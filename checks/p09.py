"""P09: float to integer"""
from vf import check, terms as t, fp
from vf.check import Goal, want

FM = {"hf": fp.F16, "sf": fp.F32, "df": fp.F64, "tf": fp.F128}


def goals(ck):
    ck.bounds += ["every bit pattern of each format"]
    codes = [check.host(), check.host(False)]
    for tgt in ["thumbv6m-none-eabi", "riscv32i-unknown-none-elf"] + ([] if ck.quick else [
            "i686-unknown-linux-gnu", "aarch64-unknown-linux-gnu", "wasm32-unknown-unknown", "powerpc-unknown-linux-gnu"]):
        try:
            codes.append(check.cross(tgt))
        except Exception as e:
            ck.note_error("%s: %s" % (tgt, str(e)[:300]))
    for c in codes:
        for un in ("", "uns"):
            for iw, w in (("si", 32), ("di", 64), ("ti", 128)):
                for fk, f in FM.items():
                    fn = "__fix%s%s%s" % (un, fk, iw)
                    if c.func(fn):
                        ck.add(Goal(c, fn, want(lambda a, f=f, un=un, w=w: fp.to_int_sat(f, a[0], w, un == "")), timeout=120))
