"""builds of compiler_builtins a check looks at"""
from concurrent.futures import ThreadPoolExecutor
from vf import check, build

MORE = ["i686-unknown-linux-gnu", "aarch64-unknown-linux-gnu", "wasm32-unknown-unknown", "powerpc-unknown-linux-gnu",
        "armv5te-unknown-linux-gnueabi"]


def codes(ck, quick=(), thorough=MORE, host=True):
    """host with and without the arch feature, then other targets; a target that does not build is reported"""
    tg = list(quick) + ([] if ck.quick else [x for x in thorough if x not in quick])
    out = []

    def one(t):
        try:
            return build.cross(t)
        except Exception as e:
            return e
    with ThreadPoolExecutor(4) as ex:
        fut = [(t, ex.submit(one, t)) for t in tg if t not in check._codes]
        if host:
            out += [check.host(), check.host(False)]
        for t, f in fut:
            r = f.result()
            if isinstance(r, Exception):
                ck.note_error("%s does not build: %s" % (t, str(r)[-300:]))
            else:
                check._codes[t] = check.Code(t, r, None)
    return out + [check._codes[t] for t in tg if t in check._codes]


def sret(c, fn):
    """size of the result when it is returned through memory"""
    f = c.func(fn)
    if f.params and f.params[0][1][0] == "ptr" and "sret" in f.params[0][2]:
        for k, v in f.params[0][2]["sret"]:
            pass
        txt = "".join(v for k, v in f.params[0][2]["sret"])
        import re
        m = re.search(r"\[(\d+)xi8\]", txt.replace(" ", ""))
        if m:
            return int(m.group(1))
        m = re.search(r"i(\d+)", txt)
        return int(m.group(1)) // 8
    return None
