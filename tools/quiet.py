#!/usr/bin/env python3
"""Developer tool: applies the behaviour-preserving edits of tools/refactorings/*.txt one by one to a scratch copy
of /repo and reports how the verification units react: clean, undecided functions, or failed obligations (false alarms).

An edit file: lines "unit NAME..." and "file PATH", then blocks
<<<<
old text
====
new text
>>>>
usage: quiet.py [--build] [NAME...]"""
import os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/refac_%d" % os.getpid()
os.environ["VERIF_REPO"] = WT
sys.path.insert(0, HERE)
sys.argv, args = [sys.argv[0], "C01"], sys.argv[1:]
import check
check.WORK = WT + "_work"
import json

def apply(path):
    units, f, n = [], None, 0
    t = open(path).read()
    for m in re.finditer(r"^unit ([^\n]*)$|^file ([^\n]*)$|^<<<<\n(.*?)^====\n(.*?)^>>>>$", t, re.M | re.S):
        if m.group(1):
            units += m.group(1).split()
        elif m.group(2):
            f = os.path.join(WT, m.group(2).strip())
        else:
            s = open(f).read()
            if s.count(m.group(3)) != 1:
                raise SystemExit("%s: %d matches of %r" % (path, s.count(m.group(3)), m.group(3)))
            open(f, "w").write(s.replace(m.group(3), m.group(4)))
            n += 1
    return units

def main():
    build = "--build" in args
    names = [a for a in args if not a.startswith("--")]
    d = os.path.join(HERE, "tools/refactorings")
    subprocess.run(["git", "clone", "-q", "/repo", WT], check=True)
    base_all = json.load(open(check.BASE))
    try:
        for n in sorted(os.listdir(d)):
            if names and not any(x in n for x in names):
                continue
            subprocess.run(["git", "-C", WT, "checkout", "-q", "--", "."], check=True)
            units = apply(os.path.join(d, n))
            if build:
                r = subprocess.run("cargo test --workspace --offline -q 2>&1 | grep -cE 'FAILED|^error'", shell=True, cwd=WT, stdout=subprocess.PIPE)
                if r.stdout.strip() != b"0":
                    print(n, "DOES NOT BUILD OR PASS", flush=True)
                    continue
            for unit in units:
                u = check.run_unit(unit)
                base = base_all[unit]
                if u.dead:
                    print("%-28s %-8s LOST ALL: %s" % (n, unit, u.dead[:300]), flush=True)
                    continue
                hard, soft = [], list("%s (%s)" % (k, v[:110]) for k, v in u.external.items())
                recs = {r["path"]: r for r in u.recs}
                for w, m, _ in u.fails:
                    if w in recs and not check.structure_changed(base, recs[w]):
                        hard.append(w + ": " + m)
                    else:
                        soft.append(w + ": " + m)
                print("%-28s %-8s %s%s" % (n, unit, "ALARM " + str(hard) if hard else "", " undecided " + str(soft) if soft else "" if hard else "clean"), flush=True)
    finally:
        shutil.rmtree(WT, ignore_errors=True)
        shutil.rmtree(WT + "_work", ignore_errors=True)

main()
