#!/usr/bin/env python3
"""Planted bugs: writes /verif/seeded/<id>/ and confirms each in a scratch copy of /repo (outside /repo and /verif).
usage: seeds.py [id...]"""
import json, os, subprocess, sys, shutil, tempfile, textwrap
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []
def seed(id, prop, edits, test, needs, breaks, pkg=".", imports=(), helper="", race=False):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, test=test, needs=needs, breaks=breaks, pkg=pkg, imports=imports, helper=helper, race=race))
exec(open(os.path.join(ROOT, "tools", "seedlist.py")).read())
DEMO = '''#!/bin/bash
# Demonstration: fails with the planted change, passes without it. Run with the repository as working directory.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
printf '{"Replace":{"%s/%s/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$(pwd)" "@PKG@" "$d" > "$t/overlay.json"
go test @RACE@-vet=off -count=1 -overlay "$t/overlay.json" -run '^TestZZDemo$' "./@PKG@"
'''
COMMON = '''
func parse(t *testing.T, doc string) *svg.Svg {
	t.Helper()
	s, err := svg.Parse(strings.NewReader(doc), svg.StrictErrorMode)
	if err != nil {
		t.Fatal(err)
	}
	return s
}

func wantPath(t *testing.T, s *svg.Svg, i int, want string) {
	t.Helper()
	if i >= len(s.SvgPaths) {
		t.Fatalf("only %d paths", len(s.SvgPaths))
	}
	if got := s.SvgPaths[i].Path.ToSVGPath(); got != want {
		t.Errorf("path %d: got %s want %s", i, got, want)
	}
}
'''
def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
only = sys.argv[1:]
base = run(["git", "log", "--format=%H", "--reverse"], "/repo").stdout.split()[0]
for s in SEEDS:
    if only and s["id"] not in only: continue
    d = os.path.join(ROOT, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed.", dir="/tmp"); r = os.path.join(tmp, "repo")
    try:
        shutil.copytree("/repo", r)
        pkgname = "svg_test" if s["pkg"] == "." else "demo_test"
        imps = sorted({"strings", "testing", "fmt"} | set(s["imports"]))
        body = "package " + (os.path.basename(s["pkg"]) + "_test" if s["pkg"] != "." else "svg_test") + "\n\nimport (\n"
        body += "".join(('\t%s"\n' % i[1:]) if i[0] == '@' else ('\t"%s"\n' % i) for i in imps) + '\n\tsvg "github.com/lafriks/go-svg"\n)\n\nvar _ = fmt.Sprint\n' + COMMON + s["helper"] + "\nfunc TestZZDemo(t *testing.T) {\n" + textwrap.indent(textwrap.dedent(s["test"]).strip("\n"), "\t") + "\n}\n"
        open(os.path.join(d, "demo_test.go.txt"), "w").write(body)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@PKG@", s["pkg"]).replace("@RACE@", "-race " if s["race"] else "")); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        clean = run(["bash", os.path.join(d, "demo.sh")], r)
        for f, old, new in s["edits"]:
            p = os.path.join(r, f); t = open(p).read()
            if t.count(old) != 1: print(s["id"], "EDIT MATCHES", t.count(old), old[:60]); break
            open(p, "w").write(t.replace(old, new))
        diff = run(["git", "diff"], r).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        # lines removed must come from the original repository
        mine = []
        f = None; ln = 0
        for l in diff.splitlines():
            if l.startswith("--- a/"): f = l[6:]
            elif l.startswith("@@"): ln = int(l.split()[1].split(",")[0][1:])
            elif l.startswith("-"):
                b = run(["git", "blame", "-s", "-L", "%d,%d" % (ln, ln), "HEAD", "--", f], r).stdout
                if not b.startswith("^"): mine.append(b.strip())
                ln += 1
            elif l.startswith(" "): ln += 1
        build = run(["go", "build", "./..."], r)
        tests = run(["go", "test", "-vet=off", "-count=1", "."], r)
        bad = run(["bash", os.path.join(d, "demo.sh")], r)
        ok = clean.returncode == 0 and build.returncode == 0 and tests.returncode == 0 and bad.returncode != 0
        print(s["id"], "OK" if ok and not mine else "PROBLEM", "demo clean %d, build %d, tests %d, demo with bug %d" % (clean.returncode, build.returncode, tests.returncode, bad.returncode), mine)
        if not ok: print(clean.stdout[-1500:] if clean.returncode else "", build.stdout[-800:], tests.stdout[-800:] if tests.returncode else "", bad.stdout[-500:])
    finally:
        shutil.rmtree(tmp)
