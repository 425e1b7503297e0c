"""Debug pretty-printer for a THIR dump:  pp.py DUMP.json NAME_SUBSTR"""
import json, sys
D = json.load(open(sys.argv[1])); T = D["types"]
def ty(i): return T[i]["s"].replace("std::", "").replace("elinor::", "")
def pat(p):
    k = p["k"]
    if k == "Bind": return ("" if p["mode"] == "val" else p["mode"] + " ") + p["name"] + ("@" + pat(p["sub"]) if "sub" in p else "")
    if k == "Variant": return p["variant"] + "{" + ",".join(f"{n}:{pat(q)}" for n, q in p["sub"]) + "}"
    if k == "Leaf": return "{" + ",".join(f"{n}:{pat(q)}" for n, q in p["sub"]) + "}"
    if k == "Deref": return "&" + pat(p["sub"])
    if k == "Const": return "=" + str({a: b for a, b in p["v"].items() if a != "t"})
    if k == "Or": return "|".join(map(pat, p["pats"]))
    return k
def e(x, ind=0):
    k = x["k"]; I = "  " * ind
    r = lambda y: e(y, ind)
    if k == "Scope": return f"'{x['id']} " + r(x["e"])
    if k == "Block":
        s = "{" + (f" /*{x['scope']} targeted*/" if x["targeted"] else "") + "\n"
        for st in x["stmts"]:
            if st["k"] == "Expr": s += I + "  " + e(st["e"], ind + 1) + ";\n"
            else: s += I + "  let " + pat(st["pat"]) + (" = " + e(st["init"], ind + 1) if "init" in st else "") + (" else " + e(st["else"], ind + 1) if "else" in st else "") + ";\n"
        if "e" in x: s += I + "  " + e(x["e"], ind + 1) + "\n"
        return s + I + "}"
    if k == "Call":
        f = x.get("f")
        n = f["path"] + (" =>" + f["rpath"] if "rpath" in f else "") if f else "(" + r(x["fe"]) + ")"
        return n + "(" + ", ".join(map(r, x["args"])) + ")"
    if k == "If": return f"if {r(x['c'])} {r(x['a'])}" + (f" else {r(x['b'])}" if "b" in x else "")
    if k in ("Bin", "Logic"): return f"({r(x['l'])} {x['op']} {r(x['r'])})"
    if k == "Un": return x["op"] + r(x["e"])
    if k == "Deref": return "*" + r(x["e"])
    if k == "Borrow": return ("&mut " if x["mut"] else "&") + r(x["e"])
    if k == "Cast": return r(x["e"]) + " as " + ty(x["t"])
    if k in ("NeverToAny", "Coerce"): return k[0] + "!" + r(x["e"])
    if k == "Loop": return "loop " + r(x["e"])
    if k == "LetCond": return f"let {pat(x['pat'])} = {r(x['e'])}"
    if k == "Match":
        s = f"match[{x['src']}] {r(x['e'])} {{\n"
        for a in x["arms"]:
            s += I + "  " + pat(a["pat"]) + (" if " + e(a["guard"], ind + 1) if "guard" in a else "") + " => " + e(a["body"], ind + 1) + "\n"
        return s + I + "}"
    if k == "Assign": return f"{r(x['l'])} = {r(x['r'])}"
    if k == "AssignOp": return f"{r(x['l'])} {x['op']} {r(x['r'])}"
    if k == "Field": return r(x["e"]) + "." + x["name"]
    if k == "Index": return r(x["e"]) + "[" + r(x["i"]) + "]"
    if k in ("Var", "Upvar"): return x["var"].split("#")[-1].join(["v", ""]) if k == "Var" else "^v" + x["var"].split("#")[-1]
    if k in ("Break", "Continue", "Return"): return k + " " + x.get("label", "") + (" " + r(x["e"]) if "e" in x else "")
    if k in ("Tuple", "Array"): return k + "(" + ", ".join(map(r, x["es"])) + ")"
    if k == "Adt": return x["adt"] + "::" + x["variant"] + "{" + ", ".join(f"{n}: {r(v)}" for n, v in x["fields"]) + "}"
    if k == "Closure": return "closure<" + x["key"] + ">[" + ",".join(map(r, x["upvars"])) + "]"
    if k == "Lit": return repr({a: b for a, b in x.items() if a not in ("k", "t", "sp")})
    if k == "Fn": return "fn " + x["f"]["path"]
    if k == "Const": return "const " + x["f"]["path"]
    if k == "Repeat": return "[" + r(x["e"]) + ";" + x["n"] + "]"
    return k
if __name__ == "__main__":
    for b in D["bodies"]:
        if len(sys.argv) < 3 or sys.argv[2] in b["key"] or sys.argv[2] in b["path"]:
            print("##", b["key"], "|", b["path"], b["kind"], "derived" if b.get("derived") else "", b.get("caps", ""))
            print("  (" + ", ".join((pat(p["pat"]) if "pat" in p else "_") + ": " + ty(p["t"]) for p in b["params"]) + ") ->", ty(b["ret"]) if "ret" in b else "")
            print(e(b["body"]))
