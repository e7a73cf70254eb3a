#!/usr/bin/env python3
"""Development tool: writes src/c02_tab*.cpp, the table of the public interface of the core element
classes, from their declarations.  No check runs it."""
import os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "/repo/Sourcecode/private/mx/core/elements"
N = 8
out, skipped = [], []
for f in sorted(os.listdir(D)):
    if not f.endswith(".h"):
        continue
    t = open(os.path.join(D, f)).read()
    name = f[:-2]
    if "class %s : public ElementInterface" % name not in t:
        continue
    if not re.search(r"\bmake%s\(\)" % name, t):
        skipped.append(name); continue
    body = t[t.index("class %s : public" % name):]
    cpp = open(os.path.join(D, name + ".cpp")).read()
    defined = lambda fn: re.search(r"%s::%s\s*\(" % (name, fn), cpp)
    L = ["CLASS( %s )" % name]
    inc = {name}
    occ = {}
    for m in re.finditer(r"/\* _+ (\w+) minOccurs = (\d+), max\w*Occurs = (\w+) _+ \*/", body):
        occ[m.group(1)] = (int(m.group(2)), -1 if m.group(3) == "unbounded" else int(m.group(3)))
    for m in re.finditer(r"(\w+)Ptr get(\w+)\(\) const;", body):
        c, n = m.groups()
        if n == "Attributes":
            continue
        if not re.search(r"void set%s\(\s*const %sPtr ?& \w+\s*\);" % (n, c), body):
            o = re.search(r"void (set\w+)\(\s*const %sPtr ?& \w+\s*\);" % c, body)  # a misspelt one
            if o and name == "BeatUnitPer":
                inc.add(c)
                L.append("ONE_( %s, %s, %s, %s )" % (name, c, n, o.group(1)))
            else:
                skipped.append("%s.%s" % (name, n))
            continue
        opt = re.search(r"getHas%s\(\)" % n, body) and re.search(r"setHas%s\(" % n, body)
        inc.add(c)
        L.append("%s( %s, %s, %s )" % ("OPT" if opt else "ONE", name, c, n))
    for m in re.finditer(r"const (\w+)Set ?& get(\w+)Set\(\) const;", body):
        c, n = m.groups()
        if not all(re.search(p, body) for p in (r"void add%s\(\s*const %sPtr ?& \w+\s*\);" % (n, c), r"void remove%s\(" % n, r"void clear%sSet\(" % n)):
            skipped.append("%s.%sSet" % (name, n)); continue
        lo, hi = occ.get(n) or occ.get(n + "Set") or {"TimeSignatureGroup": (1, -1), "KeyOctave": (0, -1), "NonTraditionalKey": (0, -1)}[n]
        if name == "PartwisePart": lo = 1  # the comment says 0, the schema and the code 1
        inc.add(c)
        L.append("SET( %s, %s, %s, %d, %d )" % (name, c, n, lo, hi))
        if re.search(r"%sPtr get%s\(\s*const" % (c, n), body) and len(re.findall(r" get%s\(" % n, body)) == 1 and defined("get" + n):
            L.append("AT( %s, %s )" % (name, n))
        if re.search(r"setHas%s\(" % n, body) and defined("setHas" + n):
            L.append("HAS( %s, %s )" % (name, n))
    m = re.search(r"(?:\w+::)?(\w+) getChoice\(\) const;", body)
    if m:
        en = re.search(r"enum class %s\s*\{(.*?)\}" % m.group(1), body, re.S)
        ty = "%s::%s" % (name, m.group(1))
        L.append("CHOICE( %s, %s )" % (name, ty))
        for e in re.findall(r"(\w+)\s*(?:=\s*\d+)?\s*(?:,|$)", re.sub(r"//.*", "", en.group(1)).strip()):
            L.append("PICK( %s, %s )" % (ty, e))
    m = re.search(r"(\w+)Ptr getAttributes\(\) const;", body)
    if m:
        a = m.group(1)
        p = os.path.join(D, a + ".h")
        if not os.path.exists(p): p = os.path.join(os.path.dirname(D), a + ".h")
        at = open(p).read() if os.path.exists(p) else t
        i = re.search(r"(struct|class) %s : public AttributesInterface" % a, at)
        if i:
            ab = at[i.end():]
            ab = ab[:ab.index("fromXElementImpl")]
            if os.path.exists(p):
                inc.add(a)
            L.append("%s( %s, %s )" % ("ATTRIBUTES" if re.search(r"void setAttributes\(\s*const %sPtr" % a, body) else "OWNATTRIBUTES", name, a))
            has = re.findall(r"(?:const\s+)?bool\s+(?:const\s+)?has(\w+);", ab)
            for h in has:
                if re.search(r"(const\s+bool|bool\s+const)\s+has%s;" % h, ab):
                    L.append("ALWAYS( %s )" % h)
                else:
                    L.append("FLAG( %s, %s )" % (a, h))
            for ty, n in re.findall(r"^\s*([\w:<>]+) (\w+);", ab, re.M):
                if not n.startswith("has") and (n[0].upper() + n[1:]).rstrip("_") not in has and ty not in ("return",):
                    L.append("ALWAYS( %s )" % n)
        else:
            skipped.append(name + " attributes " + a)
    L.append("END")
    out.append((inc, L))
for k in range(N):
    part = out[k::N]
    inc = sorted(set().union(*(p[0] for p in part)))
    with open(os.path.join(V, "src/c02_tab%d.cpp" % k), "w") as f:
        f.write("// written by tools/gen_c02.py\n#include \"c02.h\"\n")
        for i in inc:
            if os.path.exists(os.path.join(D, i + ".h")):
                f.write("#include \"mx/core/elements/%s.h\"\n" % i)
            elif os.path.exists(os.path.join(os.path.dirname(D), i + ".h")):
                f.write("#include \"mx/core/%s.h\"\n" % i)
        f.write("using namespace mx::core;\nnamespace c02\n{\nvoid table%d( std::vector<Class>& v )\n{\n" % k)
        for p in part:
            f.write(" ".join(p[1]) + "\n")
        f.write("}\n}\n")
print(len(out), "classes", sum(l.startswith(("ONE", "OPT", "SET")) for p in out for l in p[1]), "slots", sum(l.startswith("FLAG") for p in out for l in p[1]), "flags")
print("skipped:", skipped)
