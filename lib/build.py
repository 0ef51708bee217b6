"""Builds the program under test, and harnesses against its sources, from
/repo's working tree, into a scratch directory."""
import concurrent.futures as cf
import hashlib
import os
import re
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")

# The committed parsers and scanners are generated from these.  When only the
# source was edited, it is processed again (as the repository's build does).
GEN_BASE = {
    "src/mdp/parser.y": "20597e6b30e39da39859d920b6044a81f14c4707d0484cb42c967a8438b099f8", "src/mdp/parser.c": "0c7b2c3df2e19c1ebf048ff8b0f32a4a6cc3ec5559e253c058d3980c4d0c7cce", "src/mdp/parser.h": "4ba7120f06e32bd10a2072abeb26a5ce3c6aee8c63c4731c60af377fa370d2bf",
    "src/mdp/scanner.l": "48a34ddd315efea4639ebd1573cf0ed587df76b91954ae041b1174333f3207c2", "src/mdp/scanner.c": "54484d7e60d76b0666dfd5f4dbbbf21a812d495816a0bb5cf4884c78caa0ca1c",
}


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd)[:600], p.stdout.decode(errors="replace")[-1500:]))
    return p.stdout.decode(errors="replace")


def make_vars(path):
    text = open(path, encoding="latin-1").read().replace("\\\n", " ")
    out = {}
    for m in re.finditer(r"^(\w+)\s*=\s*(.*)$", text, re.M):
        out.setdefault(m.group(1), m.group(2))
    return out


def expand(vars_, name, depth=0):
    v = vars_.get(name, "")
    return re.sub(r"\$[({](\w+)[)}]", lambda m: expand(vars_, m.group(1), depth + 1) if depth < 9 else "", v)


def sources(tree):
    """Source lists from the Makefile.am files, so that added files are built too."""
    s = make_vars(os.path.join(tree, "src/Makefile.am"))
    m = make_vars(os.path.join(tree, "src/mdp/Makefile.am"))
    l = make_vars(os.path.join(tree, "src/lp-solve/Makefile.am"))
    k = make_vars(os.path.join(tree, "src/laspack/Makefile.am"))

    def cs(v, name, d):
        r = []
        for f in expand(v, name).split():
            f = re.sub(r"\.[yl]$", ".c", f)
            if f.endswith(".c"):
                p = os.path.normpath(os.path.join("src", d, f))
                if p not in r and os.path.exists(os.path.join(tree, p)):
                    r.append(p)
        return r
    lib = [cs(m, "libmdp_a_SOURCES", "mdp"), cs(l, "liblpk_a_SOURCES", "lp-solve"),
           cs(k, "liblaspack_a_SOURCES", "laspack")]
    solve = cs(s, "pomdp_solve_SOURCES", "")
    tools = cs(s, "pomdp_tools_SOURCES", "")
    fg = cs(s, "pomdp_fg_SOURCES", "")
    return lib, solve, tools, fg


def sha(p):
    return hashlib.sha256(open(p, "rb").read()).hexdigest()


class Build:
    # stray memory accesses, which a run may survive by luck, end it
    GUARD = ("-fsanitize=address,bounds,integer-divide-by-zero", "-fno-sanitize-recover=all",
             "-fno-omit-frame-pointer")

    def __init__(self, scratch, cflags=("-O2", "-g", "-w"), guard=True):
        cflags = tuple(cflags) + (self.GUARD if guard else ())
        self.dir = os.path.join(scratch, "build")
        self.tree = os.path.join(self.dir, "tree")
        self.cflags = list(cflags)
        os.makedirs(self.tree)
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(self.tree, "src"),
                        ignore=shutil.ignore_patterns("*.o", "*.a", ".deps", "pomdp-solve", "pomdp-tools",
                                                      "pomdp-fg", ".dirstamp"), symlinks=True)
        self._generated()
        self.cfg = os.path.join(self.dir, "config")
        os.makedirs(self.cfg)
        src_cfg = os.path.join(REPO, "config.h")
        with open(os.path.join(self.cfg, "config.h"), "w") as f:
            if os.path.exists(src_cfg):
                f.write(open(src_cfg, encoding="latin-1").read())
            else:
                f.write('#define HAVE_STDLIB_H 1\n#define HAVE_STRING_H 1\n#define HAVE_UNISTD_H 1\n'
                        '#define HAVE_MALLOC 1\n#define HAVE_REALLOC 1\n#define STDC_HEADERS 1\n'
                        '#define PACKAGE "pomdp-solve"\n#define VERSION "5.5"\n')
        self.objs = {}
        self.lib, self.solve_src, self.tools_src, self.fg_src = sources(self.tree)

    def _generated(self):
        for src, outs, tool in (("src/mdp/parser.y", ["src/mdp/parser.c", "src/mdp/parser.h"], "bison"),
                                ("src/mdp/scanner.l", ["src/mdp/scanner.c"], "flex")):
            p = os.path.join(self.tree, src)
            ch = os.path.exists(p) and sha(p) != GEN_BASE[src]
            oc = any(not os.path.exists(os.path.join(self.tree, o)) or
                     sha(os.path.join(self.tree, o)) != GEN_BASE[o] for o in outs)
            if ch and not oc:
                d = os.path.dirname(p)
                if tool == "bison":
                    run(["bison", "-y", "-d", "-o", "parser.c", "parser.y"], cwd=d)
                else:
                    run(["flex", "-o", "scanner.c", "scanner.l"], cwd=d)

    def inc(self):
        t = self.tree
        return ["-DHAVE_CONFIG_H", "-I" + self.cfg, "-I" + t + "/src", "-I" + t + "/src/mdp",
                "-I" + t + "/src/lp-solve", "-I" + t + "/src/laspack"]

    def _obj(self, src, extra=()):
        key = (src, tuple(extra))
        if key in self.objs:
            return self.objs[key]
        path = src if os.path.isabs(src) else os.path.join(self.tree, src)
        o = os.path.join(self.dir, "o_" + hashlib.md5(repr(key).encode()).hexdigest() + ".o")
        run(["gcc", *self.cflags, *self.inc(), *extra, "-c", path, "-o", o], cwd=os.path.dirname(path))
        self.objs[key] = o
        return o

    def compile(self, srcs, extra=()):
        srcs = list(dict.fromkeys(srcs))
        with cf.ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda s: self._obj(s, extra), srcs))

    def link(self, name, objs, libs=("-lm",)):
        out = os.path.join(self.dir, name)
        run(["gcc", *self.cflags, "-o", out, *objs, *libs])
        return out

    def archives(self, extra=()):
        """The three static libraries (they define some of the same names, so
        the order matters and they must be archives)."""
        key = ("lib", tuple(extra))
        if key not in self.objs:
            all_ = [f for g in self.lib for f in g]
            objs = dict(zip(all_, self.compile(all_, extra)))
            out = []
            for i, g in enumerate(self.lib):
                a = os.path.join(self.dir, "lib%d_%s.a" % (i, hashlib.md5(repr(key).encode()).hexdigest()))
                run(["ar", "cr", a] + [objs[f] for f in g])
                out.append(a)
            self.objs[key] = out
        return self.objs[key]

    def solve(self):
        return self.link("pomdp-solve", self.compile(self.solve_src), self.archives() + ["-lm"])

    def tools(self):
        return self.link("pomdp-tools", self.compile(self.tools_src), self.archives() + ["-lm"])

    def harness(self, name, extra_src=(), drop=("src/main.c",), base="solve", libs=("-lm",), extra=()):
        """Links harness/<name>.c with the program's own objects (without its main)."""
        base_src = {"solve": self.solve_src, "tools": self.tools_src, "fg": self.fg_src, "none": [],
                    "mdp": []}[base]
        srcs = [s for s in base_src if s not in drop and not s.endswith("-main.c")]
        srcs += [s for s in extra_src if s not in srcs]
        libs = list(libs)
        if base != "none":
            libs = self.archives(extra) + libs
        objs = self.compile(srcs, extra)
        h = self._obj(os.path.join(HARNESS, name + ".c"), extra)
        return self.link(name, [h] + objs, libs)

    def shared(self, name):
        out = os.path.join(self.dir, name + ".so")
        run(["gcc", "-O2", "-w", "-shared", "-fPIC", "-o", out, os.path.join(HARNESS, name + ".c"), "-ldl"])
        return out
