#!/usr/bin/env python3
"""setup_cmd: checks that the toolchain works and that the TLC override classes compute what the modules define."""
import concurrent.futures as cf
import os
import re
import shutil
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402


def normal(t):
    """the printed values with the fields of every record in the order of their names"""
    def value(i):
        if t.startswith("<<", i):
            out, i = ["<<"], i + 2
            while not t.startswith(">>", i):
                v, i = value(i)
                out.append(v)
                if t[i] == ",":
                    i += 1
            return ",".join(out) + ">>", i + 2
        if t[i] == "[":
            fields, i = [], i + 1
            while t[i] != "]":
                j = t.index("|->", i)
                v, k = value(j + 3)
                fields.append((t[i:j], v))
                i = k + 1 if t[k] == "," else k
            return "[" + ",".join("%s:%s" % f for f in sorted(fields)) + "]", i + 1
        if t[i] == "(":
            fields = []
            while t[i] != ")":
                j = t.index(":>", i)
                v, k = value(j + 2)
                fields.append((t[i:j].lstrip("(@"), v))
                i = k
            return "(" + ",".join("%s:%s" % f for f in sorted(fields)) + ")", i + 1
        j = i
        while t[j] not in ',>])@"':
            j += 1
        return t[i:j], j
    return [value(p)[0] for p in (m.end() for m in re.finditer('"VAL', t))]


def values(ctx, module, classes):
    out, gen, dist = ctx.tlc(module, module + ".cfg", classes=classes)
    if "No error has been found" not in out or dist < 14:
        raise vlib.ToolError("%s: %s" % (module, out[-2000:]))
    # a value may be printed over several lines
    text = out[out.index('"VAL '):out.index("Model checking completed")]
    return normal("".join(text.split())), dist


def compare(ctx, m):
    """the module's operators with all classes, and with those of Words only"""
    if m in ("Words", "BigNat"):
        ctx.design(m + "Check", min_states=300)
        return m, ctx.states
    a, n = values(ctx, m + "Check", None)
    b, _ = values(ctx, m + "Check", os.path.join(ctx.work, "few"))
    if a != b:
        raise vlib.ToolError("%s.java does not compute what %s.tla defines" % (m, m))
    return m, n


def main():
    ctx = vlib.Ctx("setup", "quick", 1)
    if not ctx.fast:
        print("setup: no override classes", *ctx.notes)
        return 0
    few = os.path.join(ctx.work, "few")
    os.makedirs(few)
    for f in os.listdir(ctx.classes):
        if f.startswith("Words") or f.startswith("V.") or f.startswith("V$"):
            shutil.copy(os.path.join(ctx.classes, f), few)
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda m: compare(ctx, m), ctx.overridden))
    print("setup: override classes agree with their modules:", ", ".join("%s (%d)" % r for r in res))
    return 0


if __name__ == "__main__":
    sys.exit(main())
