#!/usr/bin/env python3
"""Developer tool: mutation testing of the checks on scratch copies.
usage: mutate.py FILE-KEY WORKER NWORKERS MAX OUT   (FILE-KEY: a key of PLAN)"""
import json, os, random, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLAN = {
    "parse": ("chewed/src/parse.rs", ["chewed"], ["C01", "C02", "C03", "C04", "C05", "C06"], "replay"),
    "position": ("chewed/src/position.rs", ["chewed"], ["C02"], "replay"),
    "set": ("src/chomp/set.rs", ["types"], ["C07"], "replay"),
    "typed": ("src/chomp/typed/mod.rs", ["types", "infer", "lower"], ["C07", "C09", "C10", "C17"], "replay"),
    "context": ("src/chomp/typed/context.rs", ["types"], ["C08", "C09"], "replay"),
    "infer": ("src/chomp/typed/infer.rs", ["infer"], ["C09", "C10"], "replay"),
    "subst": ("src/chomp/ast/substitute.rs", ["subst"], ["C11", "C12"], "replay"),
    "ast": ("src/chomp/ast/mod.rs", ["subst", "infer", "convert"], ["C11", "C12", "C13", "C15", "C16"], "replay"),
    "name": ("src/chomp/name.rs", ["name", "lower"], ["C13", "C14", "C18"], "replay"),
    "convert": ("src/nibble/convert.rs", ["convert"], ["C15", "C16"], "replay"),
    "lower": ("src/lower/mod.rs", ["lower"], ["C17", "C18", "C19", "C20"], "replay"),
    "json": ("chomp-bench/src/json/mod.rs", ["json"], ["C21"], "replay_bench"),
}
OPS = [
    (r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" > ", " >= "), (r" >= ", " > "), (r" <= ", " < "), (r" >= ", " < "), (r" > ", " < "),
    (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ 1\b", " + 2"), (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "), (r" \+= ", " = "),
    (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"is_none\(\)", "is_some()"), (r"is_some\(\)", "is_none()"),
    (r"\.rev\(\)", ""), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"if !", "if "), (r"if (?!let)", "if !"), (r"&= ", "|= "), (r"\|= ", "&= "),
    (r"\bfirst\b", "last"), (r"\bany\(", "all("), (r"\ball\(", "any("), (r"\bbody\b", "bound"), (r"\bbound\b", "body"), (r"\bself\.(\w+)\b", "other.\\1"),
    (r"\bother\.(\w+)\b", "self.\\1"), (r"\bDeepen\b", "Shallow"), (r"\bShallow\b", "Deepen"), (r"name: name", "name: None"), (r"^(\s*)name,$", "\\1name: None,"),
    (r"\(this, that\)", "(that, this)"), (r"Some\(this\)", "Some(that)"), (r"Some\(that\)", "Some(this)"), (r"first_set", "flast_set"), (r"flast_set", "first_set"),
    (r"union_first", "union"), (r"\.len\(\)", ".len() + 1"), (r"\.len\(\)", ".len().saturating_sub(1)"), (r"\.next\(\)", ".last()"), (r"idx\b", "0"),
    (r"Ordering::Greater", "Ordering::Less"), (r"Ordering::Less", "Ordering::Greater"), (r"Ordering::Equal", "Ordering::Less"), (r"'([a-zA-Z0-9])'", "'q'"),
    (r"new_let", "new_label"), (r"new_label", "new_let"), (r"new_variable", "new_let"), (r"nullable\(\)", "first_set().is_empty()"), (r"\bsep\b", "stop"), (r"\bstop\b", "sep"),
    (r"return Some\(Err\(e\)\)", "return None"), (r"insert\(", "remove("), (r"span\b", "Span::call_site()"), (r"\.cloned\(\)|\.clone\(\)", ""), (r"camel", "snake"),
    (r"\bcount\b", "0"), (r"index\b", "index + 1"), (r"\bid\b", "0"), (r"\"([A-Za-z]+)\"", "\"Zz\""), (r"_ =>", "_ if false =>"), (r"\* 16|<< 4", "<< 3"), (r"0x(\w)", "0x1\\1"),
    (r"Some\(([a-z]+)\)$", "None"), (r"Ok\(\(\)\)", "todo!()"), (r"continue", "break"), (r"break", "continue"), (r"\.take\(\)", ".clone()"), (r"disjoint", "is_empty() || true || disjoint"),
]

def mutants(text):
    cut = text.find("#[cfg(test)]")
    body = text if cut < 0 else text[:cut]
    lines = body.split("\n")
    out = []
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("use ") or s.startswith("#[") or s.startswith("pub mod") or s.startswith("mod ") or re.match(r"(pub )?(fn|struct|enum|impl|trait)\b", s):
            continue
        for pat, rep in OPS:
            for m in re.finditer(pat, l):
                n = l[:m.start()] + m.expand(rep) + l[m.end():]
                if n != l:
                    out.append((i, l, n))
        if s.endswith(";") and not s.startswith("let ") and not s.startswith("return") and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
            out.append((i, l, ""))
        # two lines swapped
        if i + 1 < len(lines) and lines[i + 1].strip().endswith(";") and s.endswith(";"):
            out.append((i, l + "\n" + lines[i + 1], lines[i + 1] + "\n" + l))
        # an arm dropped
        if re.match(r"^[\w:\(\)', |{}.]+ => .*,$", s):
            out.append((i, l, ""))
    return out

def main():
    key, worker, nw, mx, outp = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    path, units, pids, crate = PLAN[key]
    W = "/tmp/mut_%s_%d" % (key, worker)
    RC = W + "_" + crate
    os.environ["VERIF_REPO"] = W
    sys.path.insert(0, HERE)
    sys.argv = ["x", "C01"]
    import check
    check.WORK = W + "_work"
    os.makedirs(check.WORK, exist_ok=True)
    base_all = json.load(open(check.BASE))
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
    shutil.rmtree(RC, ignore_errors=True)
    shutil.copytree(os.path.join(HERE, crate), RC, ignore=shutil.ignore_patterns("target"))
    for d, _, fs in os.walk(RC):
        for f in fs:
            if f.endswith((".rs", ".toml")):
                p = os.path.join(d, f)
                s = open(p).read()
                open(p, "w").write(s.replace('"/repo', '"' + W))
    src = open(os.path.join(W, path)).read()
    ms = mutants(src)
    random.Random(7).shuffle(ms)
    ms = ms[:mx][worker::nw]
    out = open(outp, "a")
    env = dict(os.environ, CARGO_TARGET_DIR=W + "/target")
    def say(*a):
        out.write(" ".join(str(x) for x in a) + "\n")
        out.flush()
    for i, old, new in ms:
        ls = src.split("\n")
        n = old.count("\n") + 1
        t = "\n".join(ls[:i] + [new] + ls[i + n:])
        open(os.path.join(W, path), "w").write(t)
        what = "%s:%d  %s  ->  %s" % (path, i + 1, old.strip().replace("\n", " // "), new.strip().replace("\n", " // "))
        try:
            r = subprocess.run("cargo build --workspace --offline -q 2>&1 | grep -q '^error'", shell=True, cwd=W, env=env, timeout=300)
            if r.returncode == 0:
                continue
            r = subprocess.run("timeout 60 cargo test --workspace --offline -q --no-fail-fast > /dev/null 2>&1", shell=True, cwd=W, env=env, timeout=300)
            if r.returncode != 0:
                continue
        except subprocess.TimeoutExpired:
            continue
        hard, soft = [], []
        for unit in units:
            u = check.run_unit(unit)
            if u.dead:
                soft.append(unit + " dead")
                continue
            recs = {r["path"]: r for r in u.recs}
            soft += list(u.external)
            for w, m, _ in u.fails:
                (hard if w in recs and not check.structure_changed(base_all[unit], recs[w]) else soft).append(w)
        if hard:
            say("CAUGHT", what, sorted(set(hard)))
            continue
        # the search
        r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=RC, env=dict(os.environ, CARGO_TARGET_DIR=RC + "/target"), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        found = None
        if r.returncode != 0:
            found = "no build"
        else:
            for p in pids:
                ms_ = 15000 if p in ("C19", "C20") else 6000
                try:
                    q = subprocess.run([RC + "/target/debug/" + crate, p, "5", str(ms_)], cwd=check.WORK, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=180)
                    if q.returncode != 0:
                        found = p
                        break
                except subprocess.TimeoutExpired:
                    found = p + " hang"
                    break
        say(("SOFT-FOUND" if found else "SOFT-MISSED") if soft else ("CLEAN-FOUND" if found else "CLEAN-MISSED"), what, sorted(set(soft)), found)
    say("DONE", key, worker)
    for d in (W, RC, check.WORK):
        shutil.rmtree(d, ignore_errors=True)

main()
