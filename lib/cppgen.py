"""Compiles generated C++ inverse kinematics with sanitizers and runs it on given poses."""
import os
import re
import shutil
import struct
import subprocess
import tempfile

import vk

SENTINEL = 123456.789
FLAGS = {
    "gcc": ["g++", "-O0", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "clang": ["clang++", "-O0", "-g", "-fsanitize=address,undefined,local-bounds", "-fno-sanitize-recover=all", "-Wno-everything"],
    "msan": ["clang++", "-O0", "-g", "-fsanitize=memory", "-fno-sanitize-recover=all", "-Wno-everything"],
}
HARNESS = r"""
#include <math.h>
#include <cmath>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <iostream>
template <size_t C> static size_t cols_of(int (*)(double (*)[4], double (*)[C])) { return C; }
template <size_t C> static void drive(int (*f)(double (*)[4], double (*)[C]), size_t R, const char *in, const char *out) {
    FILE *i = fopen(in, "rb"), *o = fopen(out, "wb");
    double p[16];
    while (fread(p, sizeof(double), 16, i) == 16) {
        double (*T)[4] = (double (*)[4]) malloc(16 * sizeof(double));
        memcpy(T, p, 16 * sizeof(double));
        double (*L)[C] = (double (*)[C]) malloc(R * C * sizeof(double));
        for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) L[r][c] = %(sent)r;
        int res = f(T, L);
        double head[2] = { (double) res, memcmp(T, p, 16 * sizeof(double)) ? 1.0 : 0.0 };
        double dim[2] = { (double) R, (double) C };
        fwrite(head, sizeof(double), 2, o); fwrite(dim, sizeof(double), 2, o);
        fwrite(&L[0][0], sizeof(double), R * C, o);
        free(T); free(L);
    }
    fclose(i); fclose(o);
}
"""


def fill(code, pvals):
    """The user's part: numerical values for the parameters (the declarations carry a placeholder)."""
    for s, v in pvals.items():
        code = re.sub(r"(\bdouble\s+%s\s*=)[^;]*;" % re.escape(str(s)), lambda m: m.group(1) + " %r;" % float(v), code)
    return code


def nrows(code, default):
    m = re.search(r"\bikin\s*\([^;{]*?\[\s*(\d+)\s*\]\s*\[\s*(\d+)\s*\]\s*\)", code)
    return int(m.group(1)) if m else default


def env():
    return dict(os.environ, ASAN_OPTIONS="halt_on_error=1:abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=1",
                UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=0:exitcode=98", MSAN_OPTIONS="halt_on_error=1:exitcode=97")


def main_failed(r):
    return r.get("main_rc", 0) != 0


def compile_group(d, items, kind):
    """items: [(code, rows)]; returns (exe or None, compiler message)."""
    src = HARNESS % dict(sent=SENTINEL)
    for k, (code, rows) in enumerate(items):
        open(os.path.join(d, f"g{k}.cpp"), "w").write(code)
        if len(items) == 1:      # as it is, with its own main; the harness runs before that
            src += f'#include "g{k}.cpp"\nstatic struct Harness {{ Harness() {{\n'
            src += f'  if (getenv("DRIVE_IN")) {{ drive(ikin, {rows}, getenv("DRIVE_IN"), getenv("DRIVE_OUT")); exit(0); }}\n}} }} harness_;\n'
        else:                    # several programs in one, without their main functions
            src += f'namespace g{k} {{\n#define main unused_main\n#include "g{k}.cpp"\n#undef main\n}}\n'
    if len(items) > 1:
        src += "int main(int argc, char **argv) {\n  int k = atoi(argv[1]);\n"
        for k, (code, rows) in enumerate(items):
            src += f"  if (k == {k}) drive(g{k}::ikin, {rows}, argv[2], argv[3]);\n"
        src += "  return 0;\n}\n"
    open(os.path.join(d, "h.cpp"), "w").write(src)
    p = subprocess.run(FLAGS[kind] + ["h.cpp", "-o", "h"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=240,
                       errors="replace")
    return (os.path.join(d, "h") if p.returncode == 0 else None), p.stdout


def run_one(exe, k, poses, d):
    """-> dict(rc, err, results=[(ret, T changed, rows)])"""
    i, o = os.path.join(d, f"in{k}"), os.path.join(d, f"out{k}")
    with open(i, "wb") as f:
        for T in poses:
            f.write(struct.pack("16d", *[float(x) for r in T for x in r]))
    rc, so, se = vk.run([exe, str(k), i, o], d, 60, dict(env(), DRIVE_IN=i, DRIVE_OUT=o))
    res = []
    data = open(o, "rb").read() if os.path.exists(o) else b""
    p = 0
    while p + 32 <= len(data):
        ret, ch, R, C = struct.unpack_from("4d", data, p)
        R, C = int(R), int(C)
        p += 32
        if p + 8 * R * C > len(data):
            break
        v = struct.unpack_from("%dd" % (R * C), data, p)
        p += 8 * R * C
        res.append((int(ret), ch != 0, [list(v[r * C:(r + 1) * C]) for r in range(R)]))
    return dict(rc=rc, err=(so + se)[-1500:], results=res)


def batch(items, kind="gcc", keep=None):
    """items: [dict(code, pvals, rows, poses, main)] -> results in the same order: dict(error=...) or dict(rc, err, results, main_rc)."""
    out = []
    d = tempfile.mkdtemp(dir=keep or vk.scratch())
    try:
        srcs = [(fill(i["code"], i["pvals"]), nrows(i["code"], max(64, i["rows"]))) for i in items]
        exe, msg = compile_group(d, srcs, kind)
        for k, it in enumerate(items):
            e, kk, m = exe, k, msg
            if e is None and len(items) > 1:      # find out which one: compile it alone
                dd = os.path.join(d, f"s{k}")
                os.mkdir(dd)
                e, m = compile_group(dd, [srcs[k]], kind)
                kk = 0
            if e is None:
                out.append(dict(error=m[-1500:]))
                continue
            r = run_one(e, kk, it["poses"], os.path.dirname(e))
            if it.get("main") and len(items) == 1:
                rc, so, se = vk.run([e, str(kk)], d, 60, env())
                r["main_rc"], r["main_err"], r["main_out"] = rc, (so + se)[-800:], so
            out.append(r)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out
