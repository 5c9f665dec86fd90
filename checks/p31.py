"""P31: stack probes touch every page of a frame"""
import glob
import os
import subprocess
import tempfile

from vf import build, check, probe, solve, terms as t

PAGE = 4096


class Probe:
    """one routine: the frame size is in rax (eax), the return address on top of the stack"""
    timeout, bounds, cases, reduced = 300, None, None, False
    nat = False

    def __init__(self, name, fn, ins, w, pages, scratch, native=None):
        self.name, self.fn, self.ins, self.w, self.pages, self.scratch, self.native = name, fn, ins, w, pages, scratch, native

    def ncases(self):
        return 1

    def pre(self, r):
        """at most so many pages, and a stack that does not wrap around"""
        a, s = (r["rax"], r["rsp"]) if self.w == 64 else (r["eax"], r["esp"])
        self.a, self.s = a, s
        w = self.w
        return t.ands([t.ule(a, t.const(self.pages * PAGE, w)), t.ult(t.const((self.pages + 4) * PAGE, w), s),
                       t.ult(s, t.const(t.mask(w) - 4 * PAGE, w)),
                       t.eq(t.extract(s, 1 if w == 32 else 2, 0), t.const(0, 2 if w == 32 else 3))])

    def wrong(self, run, p):
        """{what: condition} under which a finished path misbehaves"""
        w = self.w
        c = lambda v: t.const(v, w)
        caller = probe.add(self.s, c(w // 8))           # stack pointer of the caller, above the return address
        low = probe.sub(caller, self.a)
        out = {}
        prev = self.s                               # the call has written the return address
        gaps = []
        touched = []
        for x in p.touch:
            d = probe.sub(prev, x)
            deeper = t.slt(c(0), d)
            gaps.append(t.slt(c(PAGE), d))
            prev = t.ite(deeper, x, prev)
        out["skips more than a page"] = t.ors(gaps)
        out["stops above the end of the frame"] = t.slt(c(0), probe.sub(prev, low))
        out["touches more than a page below the frame"] = t.slt(c(PAGE), probe.sub(low, prev))
        out["returns elsewhere"] = t.ne(p.to, t.uf("mem", [self.s], w))
        for r in run.names:
            if r in self.scratch:
                continue
            want = caller if r == run.sp else run.start[r]
            out["changes " + r] = t.ne(p.regs[r], want)
        # memory of the caller is left alone
        out["writes above the return address"] = t.ors([t.ule(self.s, b) for b, x in p.mem])
        return out

    def decide(self, ci, timeout):
        run = probe.Run(self.ins, self.w, self.pre, 3 * self.pages + 16)
        if run.cut:
            return {"status": "unknown", "why": "more than %d accesses" % run.limit}
        n = 0
        for p in run.ended:
            out = self.wrong(run, p)
            r, env = solve.check(t.and_(p.pc, t.ors(list(out.values()))), 60)
            if r == "unsat":
                n += 1
                continue
            if r != "sat":
                return {"status": "unknown", "why": "solver time-out"}
            return self.show(env, out, p)
        return {"status": "unsat", "paths": n, "funcs": [self.fn]}

    def show(self, env, out, p):
        keys = list(out)
        v = t.evaluate([out[k] for k in keys] + [self.a], env, ufs=lambda nm, args, term: 0x5a5a)
        what = [k for k, x in zip(keys, v) if x] or ["returns elsewhere"]
        text = "%s with a frame of 0x%x bytes %s" % (self.fn, v[-1], ", ".join(what))
        rep = {"confirmed": True, "text": text, "inputs": ["0x%x" % v[-1]]}
        if self.native:
            got = self.native(v[-1], env.get("rsp", 0) % PAGE & ~15)
            rep["text"] += "; natively: " + got[1]
            rep["confirmed"] = got[0]
            if not got[0]:
                return {"status": "unknown", "why": "not reproduced natively: " + rep["text"]}
        return {"status": "violation", "replay": rep}


C = r'''
#define _GNU_SOURCE
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
static char *base; static size_t size; static long fault[1 << 16]; static int nf;
static void h(int s, siginfo_t *i, void *u) {
    char *a = i->si_addr;
    if (a < base || a >= base + size || nf >= (1 << 16)) { write(1, "stray access\n", 13); _exit(2); }
    fault[nf++] = (a - base) / 4096;
    mprotect((char *)((unsigned long)a & ~4095ul), 4096, PROT_READ | PROT_WRITE);
}
unsigned long saved, in[16], out[16], top;
void probe(void);
void go(unsigned long n);
__asm__(".globl go\ngo:\n push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp, saved(%rip)\n"
  " mov in+8(%rip), %rbx\n mov in+16(%rip), %rcx\n mov in+24(%rip), %rdx\n mov in+32(%rip), %rsi\n mov in+48(%rip), %rbp\n"
  " mov in+64(%rip), %r8\n mov in+72(%rip), %r9\n mov in+80(%rip), %r10\n mov in+96(%rip), %r12\n mov in+104(%rip), %r13\n mov in+112(%rip), %r14\n mov in+120(%rip), %r15\n"
  " mov %rdi, %rax\n mov in+40(%rip), %rdi\n mov top(%rip), %rsp\n call probe\n"
  " mov %rsp, out+56(%rip)\n mov saved(%rip), %rsp\n mov %rax, out(%rip)\n mov %rbx, out+8(%rip)\n mov %rcx, out+16(%rip)\n mov %rdx, out+24(%rip)\n mov %rsi, out+32(%rip)\n mov %rdi, out+40(%rip)\n mov %rbp, out+48(%rip)\n"
  " mov %r8, out+64(%rip)\n mov %r9, out+72(%rip)\n mov %r10, out+80(%rip)\n mov %r12, out+96(%rip)\n mov %r13, out+104(%rip)\n mov %r14, out+112(%rip)\n mov %r15, out+120(%rip)\n"
  " pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n");
int main(int c, char **v) {
    unsigned long n = strtoul(v[1], 0, 0), off = strtoul(v[2], 0, 0);
    size = (n / 4096 + 12) * 4096;
    base = mmap(0, size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(base + size - 8192, 8192, PROT_READ | PROT_WRITE);
    stack_t st = {malloc(65536), 0, 65536};
    sigaltstack(&st, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = h; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGSEGV, &sa, 0);
    for (int i = 0; i < 16; i++) in[i] = 0x1111111111111111ul * (i + 1);
    top = (unsigned long)base + size - 8192 + 4096 - 16 - (off ? 4096 - off : 0);
    go(n);
    in[0] = n; in[7] = top; in[11] = out[11];
    int bad = 0;
    for (int i = 0; i < 16; i++) if (in[i] != out[i]) { printf("register %d changed; ", i); bad = 1; }
    long page = size / 4096 - 2, low = (long)(top - n - (unsigned long)base) / 4096;
    for (int i = 0; i < nf; i++) { if (fault[i] < page - 1) { printf("page %ld touched after page %ld; ", fault[i], page); bad = 1; } if (fault[i] < page) page = fault[i]; }
    if (page > low && low < size / 4096 - 2) { printf("deepest page touched %ld, frame ends in page %ld; ", page, low); bad = 1; }
    if (page < low - 1) { printf("deepest page touched %ld, frame ends in page %ld; ", page, low); bad = 1; }
    printf(bad ? "misbehaves\n" : "behaves\n");
    return bad;
}
'''


def runner(ins_obj, sym):
    """runs the host routine on a stack of inaccessible pages that are opened one fault at a time"""
    def native(n, off):
        with tempfile.TemporaryDirectory() as d:
            with open(os.path.join(d, "p.c"), "w") as f:
                f.write(C)
            o = os.path.join(d, "o.o")
            subprocess.run([build.llvm_tool("llvm-objcopy") or "objcopy", "--redefine-sym", sym + "=probe", "--globalize-symbol", "probe", ins_obj, o], check=True)
            e = os.path.join(d, "p")
            r = subprocess.run(["cc", "-O1", "-no-pie", "-o", e, os.path.join(d, "p.c"), o, "-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all", "-Wl,--allow-multiple-definition"], capture_output=True, text=True)
            if r.returncode:
                return False, "does not link: " + r.stderr[-200:]
            bad, txt = False, ""
            for k in (off, 0, 16, 2048, 4080):
                r = subprocess.run([e, str(n), str(k)], capture_output=True, text=True, timeout=60)
                if r.returncode:
                    return True, r.stdout.strip() or "killed by signal %d" % -r.returncode
            return False, r.stdout.strip()
    return native


def goals(ck):
    pages = 48 if ck.quick else 256
    ck.bounds += ["frames of up to %d pages (%d KiB), any stack pointer that leaves room for them" % (pages, 4 * pages)]
    ck.assumptions += ["a page has 4096 bytes", "the instructions are read from the disassembly of the compiled routine; their meaning is this check's"]
    want = lambda n: "probestack" in n or "chkstk" in n or "alloca" in n

    def add(key, obj, w, native):
        fns = probe.disassemble(obj, want)
        done = {}
        for fn, ins in sorted(fns.items()):
            if not ins or fn.startswith(".weak") and "chkstk" not in fn:
                continue
            short = "__rust_probestack" if "chkstk" not in fn else "___chkstk_ms"
            if short in done:
                continue
            done[short] = 1
            scratch = ["r11"] if w == 64 and short == "__rust_probestack" else []
            ck.add(Probe("%s [%s]" % (short, key), short, ins, w, pages, scratch, runner(obj, fn) if native else None))
        if not done:
            ck.note_error("no stack probe in the build for " + key)
    c = check.host()
    add("x86_64 host", c.objs[0], 64, True)
    for tgt, w, plain in (("i686-unknown-linux-gnu", 32, False), ("x86_64-unknown-uefi", 64, True)):
        try:
            ll = build.cross(tgt, plain=plain)
        except Exception as e:
            ck.note_error("%s does not build: %s" % (tgt, str(e)[-200:]))
            continue
        add(tgt, build.newest(os.path.join(os.path.dirname(ll), "target", tgt, "**", "compiler_builtins-*.o")), w, False)
