"""Shared helpers of the harness generators."""
import os
H = "/verif/harness"
I = ["byte", "short", "int", "long"]; F = ["float", "double"]; N = I + F
def prom(*t): 
    for x in ("double", "float", "long"):
        if x in t: return x
    return "int"
class Gen:
    def __init__(g, pid, meta, head="", cls_head=""): g.pid, g.meta, g.c, g.s, g.n = pid, meta, [head], [], 0; g.cls_head = cls_head
    def method(g, name, ret, args, body, vm=False): g.s.append(f"  {'' if vm else 'precompile '}static method {name} : {ret} ({', '.join(f'${a} : {t}' for a, t in args)}) {{ {body} }}")
    def job(g, name, body): g.c.append(f"JOB2({name}) {{ {body} }}")
    def write(g):
        os.makedirs(f"{H}/{g.pid}", exist_ok=True)
        open(f"{H}/{g.pid}/VP.spvm", "w").write("class VP {\n" + g.cls_head + "\n".join(g.s) + "\n}\n")
        open(f"{H}/{g.pid}.c", "w").write(f"/*vp {g.meta} */\n// generated by tools/gen_*.py\n#include \"lang.h\"\n" + "\n".join(g.c) + "\n")
def args2(t, u): return f"c_{t} x = sym_{t}(\"x\"); c_{u} y = sym_{u}(\"y\"); set_{t}(0, x); set_{u}(1, y);"
U = {"int": "uint32_t", "long": "uint64_t", "byte": "uint8_t", "short": "uint16_t"}
FLD = "  use Point;\n  has fb : public byte; has fs : public short; has fi : public int; has fl : public long; has ff : public float; has fd : public double;\n  our $CB : public byte; our $CS : public short; our $CI : public int; our $CL : public long; our $CF : public float; our $CD : public double;\n"
def fld(t): return "f" + t[0]
def cv(t): return "$C" + t[0].upper()

