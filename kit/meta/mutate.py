#!/usr/bin/env python3
"""Mechanical changes of the repository's source, to find what the checks do not see. Nothing here is read by a check.
mutate.py list FILE.. | mutate.py run OUT.jsonl WORKERS FILE..   (works on copies under /tmp/mut, removed at the end)"""
import json, os, re, shutil, subprocess, sys, threading, queue, random
PROPS = [("crates/core/", "C01 C02 C03 C04 C05 C06"), ("crates/dif-exch/", "C07 C08 C09 C10"), ("crates/macros/", "C12 C11"), ("crates/status/", "C13 C14"),
         ("crates/w3c-vc/", "C16 C15 C14 C25 C29 C31"), ("crates/openid/src/issuer", "C18 C19 C17 C21 C22 C24 C30"), ("crates/openid/", "C17 C18 C22 C23 C28 C29"),
         ("crates/iso-mdl/", "C20 C25"), ("vercre-issuer/src/create_offer", "C21 C27 C30"), ("vercre-issuer/src/credential_offer", "C21 C27 C30"), ("vercre-issuer/src/authorize", "C22 C27 C30"), ("vercre-issuer/src/par", "C22 C27"),
         ("vercre-issuer/src/token", "C23 C27 C30"), ("vercre-issuer/src/credential.rs", "C24 C25 C27 C26 C30"), ("vercre-issuer/src/", "C26 C24 C25 C27 C22 C23 C30"),
         ("vercre-verifier/", "C28 C29 C31"), ("vercre-holder/src/presentation", "C31 C30"), ("vercre-holder/", "C30 C31")]
def props(f):
    return next(p.split() for d, p in PROPS if f.startswith(d))
SUBS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "),
        (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
        (r"\.is_some_and\(", ".is_none_or("), (r"\bif !", "if "), (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r"\bSome\(([^()]|\([^()]*\))*\)(?=[,;)]|$)", "None"),
        (r"\.first\(\)", ".last()"), (r"\.is_empty\(\)", ".is_empty() == false"), (r"\bOk\(true\)", "Ok(false)"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"),
        (r"\.cloned\(\)\.unwrap_or_default\(\)", ".cloned().unwrap_or_default().into_iter().skip(1).collect()"), (r"\.unwrap_or_default\(\)", ".unwrap_or_default().clone()"),
        (r'rename = "([^"]+)"', r'rename = "\1_"'), (r"rename_all = \"snake_case\"", 'rename_all = "camelCase"'), (r"rename_all = \"camelCase\"", 'rename_all = "snake_case"'),
        (r"\.or_else\(", ".and_then("), (r"% ", "/ "), (r"<< ", ">> "), (r">> ", "<< ")]
def mutants(root, f):
    t = open(f"{root}/{f}").read(); cut = t.find("#[cfg(test)]\nmod "); body = t if cut < 0 else t[:cut]
    lines = body.split("\n"); out = []
    def add(i, new, what, n=1): out.append((i, n, new, what))
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//") or s.startswith("use ") or not s or s.startswith("#![") : continue
        code = re.sub(r"//.*$", "", l) if '"' not in l else l
        for a, b in SUBS:
            for m in re.finditer(a, code):
                if code[:m.start()].count('"') % 2: continue
                if a in (" < ", " > ") and ("fn " in l or "impl" in l): continue
                try: new = code[:m.start()] + m.expand(b) + code[m.end():]
                except Exception: new = code[:m.start()] + b + code[m.end():]
                add(i, [new], f"{m.group(0).strip()} -> {b.strip()}")
        if not s.startswith("#[") and not s.startswith("const") and "version" not in s:
            for m in re.finditer(r"(?<![\w.\"])(\d+)(?![\w\".])", code):
                if code[:m.start()].count('"') % 2: continue
                add(i, [code[:m.start()] + str(int(m.group(1)) + 1) + code[m.end():]], f"{m.group(1)} + 1")
        if s.startswith("const") and re.search(r"= \d+", s):
            add(i, [re.sub(r"= (\d+)", lambda m: "= " + str(int(m.group(1)) + 1), l)], "const + 1")
        if s.startswith("#[serde(") and s.endswith("]"): add(i, [""], "serde attribute removed")
        m = re.match(r"^(\s*(?:\} else )?if )(?!let )(.*)( \{)$", code)
        if m and " let " not in m.group(2):
            add(i, [f"{m.group(1)}false && ({m.group(2)}){m.group(3)}"], "if false"); add(i, [f"{m.group(1)}true || ({m.group(2)}){m.group(3)}"], "if true")
        if s.endswith(";") and not re.match(r"(let|use|const|type|return|mod|pub|static|break|continue|\}|fn|macro)\b|^\}", s) and l.startswith("    "):
            # a statement, maybe over several lines
            j = i; depth = s.count("(") + s.count("{") + s.count("[") - s.count(")") - s.count("}") - s.count("]")
            while depth < 0 and j > 0:
                j -= 1; q = lines[j].strip(); depth += q.count("(") + q.count("{") + q.count("[") - q.count(")") - q.count("}") - q.count("]")
            while lines[j].strip().startswith(".") and j > 0: j -= 1
            if not re.match(r"(let|return|use|const|fn|pub|impl|struct)\b", lines[j].strip()):
                add(j, [""], "statement removed: " + s[:40], i - j + 1)
        # match arms on one line, and struct-literal or chain lines
        if re.match(r"^\.(\w+)\(.*\)[,;]?$", s) and not re.match(r"^\.(await|map_err|ok_or_else|context|collect|iter|unwrap)", s) and not s.endswith(";"):
            add(i, [""], "call removed: " + s[:40])
        if re.match(r"^\w+: .*,$", s) and "Some(" not in s and "self" not in s[:5] and not s.startswith("pub "):
            n, v = s.split(": ", 1); add(i, [f"{n}: Default::default(),"], "defaulted " + n)
        m = re.match(r"^(\s*)(.+) => (.+),$", code)
        if m and not m.group(2).startswith("_"): add(i, [""], "arm removed: " + s[:40])
    res, seen = [], set()
    for i, n, new, what in out:
        k = (i, n, tuple(new))
        if k in seen: continue
        old = " ".join(x.strip() for x in lines[i:i + n])
        if "tracing::" in old or "default().clone()" in new[0] or "skip_serializing_if" in old or re.search(r": None,$", old) or "#[instrument" in old: continue  # nothing observable
        seen.add(k); ls = lines[:i] + new + lines[i + n:]
        res.append(dict(file=f, line=i + 1, what=what, text="\n".join(ls) + ("" if cut < 0 else t[cut:]), old=" ".join(x.strip() for x in lines[i:i + n])[:160], new=" ".join(x.strip() for x in new)[:160]))
    return res
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
BASE = "/tmp/mut"
def worker(n, q, out, lock):
    w = f"{BASE}/{n}"; repo, ver = w + "/repo", w + "/verif"
    if not os.path.exists(ver):
        os.makedirs(w, exist_ok=True); subprocess.check_call(["git", "clone", "-q", "/repo", repo]); os.makedirs(ver)
        subprocess.check_call(["cp", "-a", "/verif/run.sh", "/verif/kit", "/verif/known-findings.json", "/verif/properties.jsonl", ver])
        for d, _, fs in os.walk(ver + "/kit"):
            if "/target" in d or "/vendor" in d: continue
            for x in fs:
                if x == "Cargo.toml" or x.endswith(".rs"):
                    p = d + "/" + x; t = open(p).read()
                    if "/repo/" in t: open(p, "w").write(t.replace('"/repo/', f'"{repo}/'))
    env = {**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_SCALE": os.environ.get("SCALE", "4")}
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        p = f"{repo}/{m['file']}"; orig = open(p).read(); open(p, "w").write(m["text"])
        hit, why = None, None
        for pr in props(m["file"]):
            try: r = sh("timeout", "600", "nice", "-n", "10", "bash", ver + "/run.sh", pr, env=env)
            except Exception as e: why = str(e); break
            if r.returncode == 1: hit = pr; break
            if r.returncode == 2: why = "build"; break
            if r.returncode != 0: why = f"rc {r.returncode} {pr}"; break
        open(p, "w").write(orig)
        rec = {k: m[k] for k in ("file", "line", "what", "old", "new")}; rec["res"] = hit or why or "SURVIVED"
        with lock:
            out.write(json.dumps(rec) + "\n"); out.flush()
def main():
    if sys.argv[1] == "list":
        for f in sys.argv[2:]:
            for m in mutants("/repo", f): print(m["file"], m["line"], m["what"], "|", m["old"], "|", m["new"])
        return
    outp, k, files = sys.argv[2], int(sys.argv[3]), sys.argv[4:]
    done = set()
    if os.path.exists(outp):
        for l in open(outp): d = json.loads(l); done.add((d["file"], d["line"], d["what"], d["new"]))
    ms = [m for f in files for m in mutants("/repo", f) if (m["file"], m["line"], m["what"], m["new"]) not in done]
    random.Random(7).shuffle(ms); print(len(ms), "mutants", flush=True)
    q = queue.Queue(); [q.put(m) for m in ms]; lock = threading.Lock()
    with open(outp, "a") as out:
        ts = [threading.Thread(target=worker, args=(i, q, out, lock)) for i in range(k)]; [t.start() for t in ts]; [t.join() for t in ts]
    if os.environ.get("KEEP") != "1": shutil.rmtree(BASE)
main()
