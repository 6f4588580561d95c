#!/usr/bin/env python3
"""mutate.py FILE ID[,ID...] [--jobs N] [--max N] [--seed N] [--out DIR]: not a check.  Plants small changes in a
scratch copy of util/FILE, one at a time, runs the quick checks on it, and lists the changes they do not catch."""
import argparse, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUBS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<\-=>])<(?![<=])(?=\s)", "<="), (r"(?<![>\-])>(?![>=])(?=\s)", ">="), (r"==", "!="), (r"!=", "=="),
        (r"\+\+", "--"), (r"--", "++"), (r"\+=", "-="), (r"-=", "+="), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " + "),
        (r"&&", "||"), (r"\|\|", "&&"), (r" & ", " | "), (r" \| ", " & "), (r"<<(?= \d)", ">>"), (r">>(?= \d)", "<<"),
        (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"memory_order_(acquire|release|acq_rel)", "memory_order_relaxed"),
        (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])([2-9]|\d\d+)(?![\w.])", lambda m: str(int(m.group(0)) + 1)),
        (r"(?<![\w.])(\d+\.\d*)f?", lambda m: "(%sf * 1.1f + 0.01f)" % m.group(1)), (r"!(?=[\w(])", ""), (r"\bbreak;", ";"), (r"\bcontinue;", ";"),
        (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"if \((.*)\)(?= ?\{?$)", r"if (!(\1))"), (r"\breturn (?!;)([^;{}]+);", r"return !(\1);")]


def code_lines(text):
    out, block, tests = [], False, False
    for i, l in enumerate(text.split("\n")):
        s = l.strip()
        if "/*" in s:
            block = True
        skip = block or not s or s.startswith(("//", "#", "static_assert", "using ", "template", "namespace", "struct ", "class ", "requires")) or "TESTS" in s
        if "*/" in s:
            block = False
        if not skip:
            out.append(i)
    return out


def mutants(text, rng, most):
    lines, res = text.split("\n"), []
    for i in code_lines(text):
        l = lines[i]
        code = l.split("//")[0]
        for pat, to in SUBS:
            for m in re.finditer(pat, code):
                new = code[:m.start()] + (to(m) if callable(to) else m.expand(to)) + code[m.end():]
                if new != code:
                    res.append((i, new))
        if re.match(r"^\s+[\w\[\]().*>:-]+ ?(=|\+=|-=|\+\+|--|\().*;\s*$", code) and not re.match(r"^\s+(return|const|auto|static|constexpr)\b", code):
            res.append((i, re.match(r"^\s*", code).group(0) + ";"))
    res = list(dict.fromkeys(res))
    rng.shuffle(res)
    res = sorted(res[:most])
    return lines, res


TYPES = [(r"\bsize_t\b", "uint8_t"), (r"\b(std::)?size_t\b", "uint16_t"), (r"\buint32_t\b", "uint16_t"), (r"\buint16_t\b", "uint8_t"), (r"\buint32_t\b", "int32_t"),
         (r"\bunsigned\b", "unsigned char"), (r"\bint\b", "short"), (r"\bint32_t\b", "int16_t"), (r"\buint8_t\b", "int8_t"), (r"\buint64_t\b", "uint32_t"), (r"\bint64_t\b", "int32_t"),
         (r"\bdouble\b", "float"), (r"\bfloat\b", "int"), (r"\bauto &&?(?=\w)", "auto "), (r"(?<=\w) &&?(?=\w+[,)])", " "), (r"std::move\((\w+)\)", r"\1"), (r"\bstrong\b", "weak")]


def structural(text, rng, most, types=False):
    """Narrower types, values for references, statements swapped, doubled or guarded, one member for another, shared members."""
    lines, res = text.split("\n"), []
    stm = [i for i in code_lines(text) if re.match(r"^\s+[^/]*;\s*(//.*)?$", lines[i]) and not re.match(r"^\s*[{}]", lines[i])]
    act = [i for i in stm if re.match(r"^\t*\s+[\w\[\]().*>:<-]+ ?([-+*/|&^]?=|\+\+|--|\()", lines[i]) and not re.match(r"^\s*(const|auto|static|constexpr|using|typedef|friend)\b", lines[i])]
    names = sorted({w for i in stm for w in re.findall(r"\b_?[a-z]\w*(?=\s*(?:\{[^}]*\}|=[^=;]*)?;\s*$)", lines[i])} - {"default", "delete", "true", "false", "nullopt", "nullptr", "this", "break", "continue", "return"})
    for i in code_lines(text):
        code = lines[i].split("//")[0]
        for pat, to in TYPES:
            for m in re.finditer(pat, code):
                res.append((i, code[:m.start()] + m.expand(to) + code[m.end():]))
        for w in names if not types else ():
            for m in re.finditer(r"\b%s\b" % w, code):
                for v in rng.sample(names, min(2, len(names))):
                    if v != w:
                        res.append((i, code[:m.start()] + v + code[m.end():]))
    for i in act if not types else ():
        pad = re.match(r"^\s*", lines[i]).group(0)
        if lines[i].strip().startswith("return"):
            continue
        if re.search(r"\+\+|--|[-+*/]=|^\s*\w+\(", lines[i]):
            res.append((i, lines[i].split("//")[0] + " " + lines[i].split("//")[0].strip()))
        if i + 1 in act and not lines[i + 1].strip().startswith("return"):
            res.append((i, lines[i + 1].split("//")[0] + "\n" + lines[i].split("//")[0] + "\n#if 0"))
            res[-1] = (i, res[-1][1] + "\n" + lines[i + 1] + "\n#endif//")
        res.append((i, pad + "{ static bool once = true; if (once) " + lines[i].split("//")[0].strip() + " once = false; }"))
    for i in stm:
        if re.match(r"^\t[\w:<>, ]+ _?\w+\s*(\{[^}]*\}|= [^;]*)?;\s*$", lines[i]) and not re.match(r"^\t(static|using|return|typedef|constexpr|friend|const )", lines[i]):
            res.append((i, "\tstatic inline " + lines[i].strip()))
    if types == "shared":
        res = []
        for i in code_lines(text):
            m = re.match(r"^(\t+)((?:const )?[\w:<>, ]+[ &*]_?\w+\s*(?:\{[^}]*\}|= [^;]*|\([^()]*\))?;)\s*$", lines[i].split("//")[0].rstrip())
            if m and not re.match(r"(static|using|return|typedef|constexpr|friend|else|delete|const auto|const )\b", m.group(2)):
                res += [(i, m.group(1) + "static inline " + m.group(2)), (i, m.group(1) + "static " + m.group(2))]
    res = [(i, n) for i, n in dict.fromkeys(res) if n != lines[i]]
    rng.shuffle(res)
    return lines, sorted(res[:most])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file"), ap.add_argument("ids")
    ap.add_argument("--jobs", type=int, default=3), ap.add_argument("--max", type=int, default=60), ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--structural", action="store_true")
    ap.add_argument("--types", action="store_true", help="all narrower types and shared members, nothing else")
    ap.add_argument("--shared", action="store_true", help="members and locals made static, nothing else")
    ap.add_argument("--out", default="/tmp/mut")
    o = ap.parse_args()
    rel = "util/" + o.file
    text = open("/repo/" + rel).read()
    lines, muts = structural(text, random.Random(o.seed), o.max, "shared" if o.shared else o.types) if o.structural or o.types or o.shared else mutants(text, random.Random(o.seed), o.max)
    os.makedirs(o.out, exist_ok=True)

    def one(k):
        i, new = muts[k]
        d = tempfile.mkdtemp(prefix="mut", dir=o.out)
        try:
            repo, ver = d + "/repo", d + "/verif"
            shutil.copytree("/repo/util", repo + "/util")
            for x in os.listdir("/repo"):
                if x not in ("util", ".git", "tests", "build") and os.path.isdir("/repo/" + x):
                    os.symlink("/repo/" + x, repo + "/" + x)
            os.makedirs(ver)
            for x in ("checks", "harness", "spec", "tools"):
                shutil.copytree(VERIF + "/" + x, ver + "/" + x)
            shutil.copy(VERIF + "/known_findings.json", ver)
            t = lines[:]
            t[i] = new
            if "#endif//" in new:  # two lines swapped
                t[i], t[i + 1] = new.split("\n")[0], new.split("\n")[1]
            open(repo + "/" + rel, "w").write("\n".join(t))
            verdict = "SURVIVED"
            for c in o.ids.split(","):
                p = subprocess.run(["python3", "tools/check.py", c], cwd=ver, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   env={**os.environ, "VT_REPO": repo, "VERIF_SEED": "1"}, timeout=900)
                out = p.stdout.decode("utf-8", "replace")
                if p.returncode == 1:
                    verdict = "caught"
                    break
                if p.returncode != 0:
                    verdict = "invalid" if "does not compile" in out else "ERROR " + out[-300:]
                    break
            return verdict
        except subprocess.TimeoutExpired:
            return "TIMEOUT"
        finally:
            shutil.rmtree(d, ignore_errors=True)
    n = {}
    with ThreadPoolExecutor(o.jobs) as ex:
        for k, v in enumerate(ex.map(one, range(len(muts)))):
            n[v.split()[0]] = n.get(v.split()[0], 0) + 1
            if v not in ("caught", "invalid"):
                i, new = muts[k]
                print(f"{v}: {o.file}:{i + 1}\n  - {lines[i].strip()}\n  + {new.strip()}", flush=True)
    print(o.file, o.ids, n, flush=True)


main()
