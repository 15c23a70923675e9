import json
import os
import re
import subprocess
from vlib import CXX, HARNESS, REPO, Run, ToolError, h, write_cfg
from .aes import CFB, key16, plain
from .c06 import merge

KINDS = ["genuine", "replay", "older", "tag", "tag2", "tagzero", "tagother", "ct", "iv", "key", "cutct", "addct", "ivother", "shift"]
HM, HC = "Authentication/HMAC-SHA-256", "StreamCiphers/HC-128"


def concretise(rng, walk, mode):
    """sender 1, receiver 2, receiver 3 with another MAC key; packets not delivered before the next are lost"""
    mac, enc, iv, tag = rng.randbytes(rng.choice([16, 32, 64, 65])), key16(rng), key16(rng), rng.choice([16, 16, 32])
    out = ["Forget"]
    for s, m in ((1, mac), (2, mac), (3, rng.randbytes(32))):
        out.append("Keys s=%d mode=%s mac=%s enc=%s iv=%s tag=%d" % (s, mode, h(m), h(enc), h(iv), tag))
    p = n = 0
    for op in walk:
        kd = op["name"]
        if kd == "seal":
            p, n = p + 1, op["msg"]
            out.append("Send s=1 p=%d in=%s%s" % (p, h(plain(rng, n)), " iv=%s" % h(rng.randbytes(16)) if mode == "hc" else ""))
            continue
        d = "Receive s=2 p=%d" % p
        old = max(1, p - rng.choice([1, 1, 2, 3]))
        if kd == "older":
            d = "Receive s=2 p=%d" % old
        elif kd == "tag":
            d += " ftag=%d" % rng.randrange(8 * tag)
        elif kd == "tag2":
            b, (i, j) = rng.randrange(8), rng.sample(range(tag), 2)
            d += " ftag=%d ftag2=%d" % (8 * i + b, 8 * j + b)
        elif kd == "tagzero":
            d += " settag=%s" % rng.choice(["00" * tag, "ff" * tag])
        elif kd == "tagother":
            d += " tagof=%d" % old
        elif kd == "ct":
            d += " fct=%d" % rng.randrange(max(1, 8 * n))
        elif kd == "iv":
            d += " fiv=%d" % rng.randrange(128)
        elif kd == "key":
            d = d.replace("s=2", "s=3")
        elif kd == "cutct":
            d += " cutct=%d" % rng.choice([1, 1, 2, 16])
        elif kd == "addct":
            d += " addct=%d with=%d" % (rng.choice([1, 1, 3, 16]), rng.choice([0, 255]))
        elif kd == "ivother":
            d += " ivof=%d" % old
        elif kd == "shift":
            d += " shift=%d" % rng.choice([1, 2])
        out.append(d)
        if kd == "replay":
            out.append(d)
    return out


def example(ctx):
    """the example program with a channel between its two halves"""
    dirs = [CFB["AES/plain"][0], HM, HC]
    src = [os.path.join(REPO, "Example_AuthenticatedEncryption/example_ae.cpp")] + ctx.sources("Hash/SHA/SHA-2/SHA-256") + ctx.sources("Encoders/Hex") + \
        sum((ctx.sources(d, ("sha-256.cpp",) if d == HM else ()) for d in dirs), [])
    exe, work = ctx.path("example"), ctx.path("example-objects")
    os.mkdir(work)

    def run(cmd, what):
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=work)
        if r.returncode:
            raise ToolError(what + ": " + r.stderr[-2000:])
        return r.stdout
    inc = ["-I" + os.path.join(REPO, d) for d in dirs]
    run([CXX, "-w", "-g", "-c"] + inc + src, "compiling the example")
    objs = [os.path.join(work, f) for f in os.listdir(work)]
    syms = set(re.findall(r" T (\S+)", run(["nm"] + objs, "nm")))
    names = {}
    for s in syms:
        for k, f in (("TAG", "hmac_tag_generation"), ("CHECK", "hmac_tag_validation"), ("CFB", "aes_cfb_process_packet"), ("INIT", "hc128_initialize"), ("HC", "hc128_process_packet")):
            if s.startswith("_Z%d%s" % (len(f), f)):
                names[k] = s
    run([CXX, "-w", "-g", "-o", exe] + inc + ["-D%s=%s" % kv for kv in names.items()] + objs + [os.path.join(HARNESS, "ae_wrap.cpp")] +
        ["-Wl,--wrap=" + s for s in names.values()], "linking the example")

    def once(fault):
        p = ctx.path("ae")
        try:
            rc = subprocess.run([exe], env={"AE_TRACE": p, "AE_FAULT": fault}, capture_output=True, timeout=60).returncode
        except subprocess.TimeoutExpired:
            rc = -1
        t = open(p).read() if os.path.exists(p) else ""
        if t:
            os.unlink(p)
        return '{"e":"Begin","fault":"%s"}\n' % fault + t + '{"e":"End","rc":%d}\n' % rc
    plain_run = once("")
    made = [json.loads(x) for x in plain_run.splitlines() if '"Make"' in x]
    faults = [""]
    for i, m in enumerate(made, 1):
        for what, n in (("body", 8 * len(m["body"])), ("tag", 8 * len(m["tag"]))):
            faults += ["%d %s %d" % (i, what, b) for b in range(ctx.rng.randrange(5), n, 5 if ctx.quick else 1)]
        if i > 1:
            faults.append("%d other 0" % i)
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(8) as ex:
        texts = list(ex.map(once, faults))
    path = ctx.path("example.ndjson")
    with open(path, "w") as f:
        f.write("".join(texts))
    lines = "".join(texts).splitlines()
    ok, k, gen, dist = ctx.validate_trace("ExampleAe", "ExampleAe.cfg", path)
    if not ok:
        fault = next((json.loads(x)["fault"] for x in reversed(lines[:k + 1]) if '"Begin"' in x), "")
        ctx.violation({"kind": "the example program: call not allowed by ExampleAe", "at": k + 1}, None,
                      {"program": "Example_AuthenticatedEncryption/example_ae.cpp", "fault": fault, "rejected_event": lines[k][:4000]})
        return
    with ctx.lock:
        ctx.states += dist
        ctx.transitions += gen - 1
        ctx.traces += len(faults)
        ctx.events += len(lines)
    ctx.note("the example program ran with %d channel faults" % len(faults))


def probe(evs):
    return [(i, "out") for i, e in enumerate(evs) if e["e"] == "Receive" and len(e["out"]) > 16 and i > 1 and evs[i - 1]["e"] == "Send" and evs[i - 1]["ct"] == e["ct"]
            and e["out"] == evs[i - 1]["in"]]


def check(ctx):
    for cfg in ("EtmModel.cfg", "EtmModelIv.cfg"):
        ctx.design("EtmModel", cfg)
    example(ctx)
    ml = [0, 1, 5, 15, 16, 17, 33] if ctx.quick else [0, 1, 2, 3, 4, 5, 12, 14, 15, 16, 17, 31, 32, 33, 48, 64, 100]
    cfg = write_cfg(ctx, "SchedEtm.cfg", "SPECIFICATION Spec\nCONSTANTS Kinds = {%s}\n MsgLens = {%s}\n AdLens = {0}\nVIEW View\nACTION_CONSTRAINT PrintEdge\nCHECK_DEADLOCK FALSE\n" % (
        ",".join('"%s"' % k for k in KINDS), ",".join(map(str, ml))))
    es = ctx.edges("SchedAe", cfg)
    exes = ctx.build_all({k: ("drv_etm", [d, HM, HC], v) for k, (d, v, r) in CFB.items() if r == 10})
    runs = []
    for k in exes:
        for mode in ("cfb", "hc"):
            if mode == "hc" and k != "AES/plain" and ctx.quick:
                continue
            seqs = [concretise(ctx.rng, w, mode) for _ in range(2 if ctx.quick else 8) for w in ctx.tours(es, ["none", 0], 2000)]
            for i, ls in enumerate(seqs if not ctx.quick else merge(seqs, 2)):
                runs.append(Run(exes[k], ls, "%s %s %d" % (mode, k, i), "TraceEtm", "TraceEtm.cfg", poison=(0xA5, 0)[i % 2], probe=probe))
    ctx.conform_all(runs)
    return ["a forgery accepted with the 2^-128 probability a tag of 16 bytes allows would be reported as a violation",
            "keys, IVs and messages are sampled"]
