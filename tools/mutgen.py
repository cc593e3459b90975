#!/usr/bin/env python3
"""mutgen.py COUNT SEED FILE... : writes a list of random single-token changes of the files (json on stdout); development tool, see mutrun.sh"""
import json, random, re, sys
def candidates(path):
    src = open("/repo/" + path).read().split("\n")
    res = []
    incom = False
    for n, l in enumerate(src):
        s = l
        if incom:
            if "*/" in s: incom = False
            continue
        if s.strip().startswith("/*"):
            if "*/" not in s: incom = True
            continue
        code = s.split("//")[0]
        t = code.strip()
        if not t or t.startswith("#") or re.match(r"(template|using|static_assert|assert|throw|namespace|typedef|struct|class|friend|public|private)\b", t): continue
        if "throw " in code or "assert(" in code or "std::cerr" in code or "std::cout" in code: continue
        def sub(a, b, what):
            new = code[:a[0]] + b + code[a[1]:]
            if new != code: res.append(dict(file=path, line=n + 1, old=l, new=new, op=what))
        for m in re.finditer(r" (<|>|<=|>=) ", code):
            if "template" in code or "cout" in code: continue
            o = m.group(1); b = {"<": "<=", ">": ">=", "<=": "<", ">=": ">"}[o]
            sub(m.span(1), b, "rel")
        for m in re.finditer(r"(==|!=)", code): sub(m.span(1), "!=" if m.group(1) == "==" else "==", "eq")
        for m in re.finditer(r"(&&|\|\|)", code):
            if "auto" in code or re.search(r"\w&& ", code) and m.group(1) == "&&": continue
            sub(m.span(1), "||" if m.group(1) == "&&" else "&&", "logic")
        for m in re.finditer(r" ?(\+|-) ?(?=[\w(])(?<![+\-eE(,=\[] )", code):
            o = m.group(1); i = m.start(1)
            if code[i-1:i] in "+-eE" or code[i+1:i+2] in "+-=>" : continue
            if re.search(r"[\w\])] ?$", code[:i]): sub(m.span(1), "-" if o == "+" else "+", "arith")
        for m in re.finditer(r"(?<=[\w\])])( ?)\*( ?)(?=\(?[a-zA-Z_0-9])", code):
            if re.search(r"(Scalar|double|int|char|uint|Real|const|Int|void|T) ?$", code[:m.start()]) or re.match(r"[\w:<>, ]+\*\s*\w+\s*[=;,)]", code[m.start()-3:]) and False: continue
            sub(m.span(), "+", "mul")
        for m in re.finditer(r"(?<![\w.<])(\d+)(?![\w.>xX])", code):
            v = int(m.group(1))
            sub(m.span(1), str(v + 1), "const+")
            if v > 0: sub(m.span(1), str(v - 1), "const-")
        if t.endswith(";") and t.count("(") == t.count(")") and t.count("{") == t.count("}") and re.match(r"[\w\->\.\[\]\(\)\*\+:]+\s*(=|\+=|-=|\*=|\(|\.|->|\+\+|;)", t) and not t.startswith(("return", "for", "if", "auto", "while", "else", "case", "default", "const", "break", "continue")):
            i = len(code) - len(code.lstrip()); sub((i, len(code)), ";", "delete")
        if t in ("break;", "continue;"): i = len(code) - len(code.lstrip()); sub((i, len(code)), ";", "delete")
        m = re.search(r"\bif ?\((.*)\)\s*(\{|$|return|continue|break)", code)
        if m and m.group(1).count("(") == m.group(1).count(")"): sub(m.span(1), "!(" + m.group(1) + ")", "neg")
        for m in re.finditer(r"std::(min|max)\b", code): sub(m.span(1), "max" if m.group(1) == "min" else "min", "minmax")
        for m in re.finditer(r"\b(true|false)\b", code): sub(m.span(1), "false" if m.group(1) == "true" else "true", "bool")
        for m in re.finditer(r"(\+=|-=)", code): sub(m.span(1), "-=" if m.group(1) == "+=" else "+=", "acc")
        for m in re.finditer(r" (=) ", code):
            pass
    return res
cnt, seed = int(sys.argv[1]), int(sys.argv[2])
random.seed(seed)
allc = []
for f in sys.argv[3:]: allc += candidates(f)
byline = {}
for c in allc: byline.setdefault((c["file"], c["line"]), []).append(c)
keys = list(byline); random.shuffle(keys)
out = [random.choice(byline[k]) for k in keys[:cnt]] if cnt <= len(keys) else [random.choice(byline[k]) for k in keys]
sys.stderr.write("%d candidates on %d lines, %d chosen\n" % (len(allc), len(keys), len(out)))
json.dump(out, sys.stdout, indent=0)
