"""Builds checker binaries from /repo's current working tree."""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

ENV = dict(os.environ)
ENV.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", CGO_ENABLED="0")
ENV["PATH"] = "/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"


class BuildError(Exception):
    pass


def run(cmd, cwd, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("%s: exit %d\n%s%s" % (" ".join(cmd), p.returncode, p.stdout[-3000:], p.stderr[-6000:]))
    return p.stdout


def go_files(tags, goarch="amd64"):
    env = dict(ENV, GOARCH=goarch)
    out = run(["go", "list", "-tags", tags, "-f", "{{range .GoFiles}}{{.}}\n{{end}}", "."], REPO, env)
    return [l for l in out.split("\n") if l]


def layout(work, tags, goarch="amd64", replace=None):
    """Copy the package under test (no tests), the runtime and the harnesses into work."""
    os.makedirs(work, exist_ok=True)
    files = go_files(tags, goarch)
    for f in files:
        shutil.copy(os.path.join(REPO, f), os.path.join(work, f))
    for name, text in (replace or {}).items():
        with open(os.path.join(work, name), "w") as fh:
            fh.write(text)
        if name not in files:
            files.append(name)
    for f in ("go.mod", "go.sum"):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), os.path.join(work, f))
    # other packages the tree may have grown
    for d, dirs, fs in os.walk(REPO):
        dirs[:] = [x for x in dirs if not x.startswith(".") and x not in ("stuff", "testdata", "vrt", "vsync", "vatomic", "vh")]
        if d == REPO:
            continue
        for f in fs:
            if f.endswith((".go", ".s", ".h")) and not f.endswith("_test.go"):
                t = os.path.join(work, os.path.relpath(d, REPO))
                os.makedirs(t, exist_ok=True)
                shutil.copy(os.path.join(d, f), os.path.join(t, f))
    for d in ("vrt", "vsync", "vatomic"):
        shutil.copytree(os.path.join(VERIF, "rt", d), os.path.join(work, d), dirs_exist_ok=True)
    shutil.copytree(os.path.join(VERIF, "harness"), os.path.join(work, "vh"), dirs_exist_ok=True)
    return files


def build_native(work, cmd, out, tags="", goarch="amd64", replace=None, extra=()):
    layout(work, tags, goarch, replace)
    env = dict(ENV, GOARCH=goarch)
    run(["go", "build", "-tags", tags, *extra, "-o", out, "./vh/" + cmd], work, env)
    return out


def build_instr(work, cmd, out, tags="tuneparam", depth=False, goarch="amd64"):
    files = layout(work, tags, goarch)
    env = dict(ENV, GOARCH=goarch)
    exp = run(["go", "list", "-tags", tags, "-export", "-deps", "-f", "{{.ImportPath}}={{.Export}}", "."], work, env)
    ef = os.path.join(work, "exports.txt")
    with open(ef, "w") as fh:
        fh.write(exp)
    tool = os.path.join(work, "instr.bin")
    run(["go", "build", "-o", tool, "."], os.path.join(VERIF, "tools", "instr"))
    a = [tool, "-exports", ef, "-goarch", goarch]
    if depth:
        a.append("-depth")
    stats = run(a + files, work, env)
    run(["go", "build", "-tags", tags, "-o", out, "./vh/" + cmd], work, env)
    return stats
