"""A small reader and scheduler for Snakefiles: snakemake itself is not installed.

Top-level code is executed as it stands; every `rule` becomes an object whose directives are evaluated on demand and whose
`run` body is executed for one job.  Only what a run body can observe (input, output, wildcards) is provided."""
import itertools
import os
import re
import sys
import textwrap
import types


class Items(list):
    """Positional and named files, printed as snakemake does."""

    def __init__(self, args=(), named=()):
        super().__init__()
        for a in args:
            self.extend(Items._flat(a))
        self.__dict__["names"] = {}
        for k, a in dict(named).items():
            fl = Items._flat(a)
            self.names[k] = Items(fl) if not isinstance(a, str) else fl[0]
            self.extend(fl)

    @staticmethod
    def _flat(a):
        if isinstance(a, (str, os.PathLike)):
            return [str(a)]
        return [y for x in a for y in Items._flat(x)]

    def __getattr__(self, k):
        try:
            return self.__dict__["names"][k]
        except KeyError:
            raise AttributeError(k)

    def get(self, k, d=None):
        return self.names.get(k, d)

    def __str__(self):
        return " ".join(map(str, self))


def expand(pattern, *_, allow_missing=False, **kw):
    out = []
    for p in [pattern] if isinstance(pattern, str) else pattern:
        names = [k for k in dict.fromkeys(re.findall(r"{(\w+)}", p)) if k in kw]
        missing = set(re.findall(r"{(\w+)}", p)) - set(kw)
        if missing and not allow_missing:
            raise KeyError(missing)
        vals = [[kw[k]] if isinstance(kw[k], str) or not hasattr(kw[k], "__iter__") else list(kw[k]) for k in names]
        for c in itertools.product(*vals):
            q = p
            for k, v in zip(names, c):
                q = q.replace("{%s}" % k, str(v))
            out.append(q)
    return out


class Rule:
    def __init__(self, name, directives, body, ns):
        self.name, self.directives, self.body, self.ns = name, directives, body, ns

    def _eval(self, what, wildcards=None):
        text = self.directives.get(what)
        if text is None:
            return Items()
        got = eval(compile("__items__(" + text + "\n)", f"<{self.name}.{what}>", "eval"), self.ns)
        if wildcards is None:
            return got
        sub = lambda s: re.sub(r"{(\w+)}", lambda m: str(wildcards[m[1]]), s)  # noqa: E731
        out = Items([sub(s) for s in got])
        for k, v in got.names.items():
            out.names[k] = sub(v) if isinstance(v, str) else Items([sub(s) for s in v])
        return out

    def match(self, path):
        for pat in self._eval("output"):
            seen = set()

            def grp(m):
                if m[1] in seen:
                    return f"(?P={m[1]})"
                seen.add(m[1])
                return f"(?P<{m[1]}>.+)"

            parts = re.split(r"({\w+})", pat)
            rx = "".join(re.sub(r"{(\w+)}", grp, p) if re.fullmatch(r"{\w+}", p) else re.escape(p) for p in parts)
            m = re.fullmatch(rx, path)
            if m:
                return m.groupdict()
        return None

    def inputs(self, wildcards):
        return self._eval("input", wildcards)

    def outputs(self, wildcards):
        return self._eval("output", wildcards)

    def run(self, wildcards):
        """Execute the body in the current directory."""
        inp, out = self.inputs(wildcards), self.outputs(wildcards)
        for o in out:
            if os.path.dirname(o):
                os.makedirs(os.path.dirname(o), exist_ok=True)
        if self.body is None:
            for o in out:
                if o in self.ns["__touched__"]:
                    open(o, "w").close()
            return
        # as in snakemake, the body is a function: its names are local, globals are those of the Snakefile
        src = "def __job__(input, output, wildcards, threads=1):\n" + textwrap.indent(self.body, "    ") + "\n"
        scope = self.ns
        exec(compile(src, f"<{self.name}.run>", "exec"), scope)
        scope["__job__"](inp, out, types.SimpleNamespace(**{k: str(v) for k, v in wildcards.items()}))


class Snakefile:
    def __init__(self, path, predefined=None):
        self.rules, self.workdir = {}, None
        self.ns = dict(predefined or {})
        self.ns.update(__name__="snakefile", expand=expand, __items__=lambda *a, **k: Items(a, k), __touched__=set(), protected=lambda x: x, temp=lambda x: x, directory=lambda x: x)
        self.ns["touch"] = lambda x: (self.ns["__touched__"].add(x), x)[1]
        self.ns["__rule__"] = self._rule
        self.ns["__include__"] = lambda p: self._load(os.path.join(os.path.dirname(path), p))
        self.ns["__workdir__"] = lambda p: setattr(self, "workdir", p)
        self._load(path)

    def _rule(self, name, directives, body):
        self.rules[name] = Rule(name, directives, body, self.ns)

    def _load(self, path):
        with open(path) as f:
            lines = f.read().split("\n")
        out, i = [], 0
        while i < len(lines):
            ln = lines[i]
            m = re.match(r"(?:rule|checkpoint)\s+(\w+)\s*:\s*(.*)$", ln)
            if m:
                i += 1
                block = []
                while i < len(lines) and (not lines[i].strip() or lines[i][0].isspace() or (lines[i].startswith("#") and self._indented_later(lines, i))):
                    block.append(lines[i])
                    i += 1
                d, body = self._parse(block)
                out.append(f"__rule__({m[1]!r}, {d!r}, {body!r})")
                continue
            m = re.match(r"(workdir|include)\s*:\s*(.+)$", ln)
            if m:
                out.append(f"__{m[1]}__({m[2]})")
                i += 1
                continue
            out.append(ln)
            i += 1
        exec(compile("\n".join(out), path, "exec"), self.ns)

    @staticmethod
    def _indented_later(lines, i):
        for ln in lines[i:]:
            if ln.strip() and not ln.startswith("#"):
                return ln[0].isspace()
        return False

    @staticmethod
    def _parse(block):
        text = textwrap.dedent("\n".join(ln for ln in block if not ln.startswith("#")))
        d, body, cur = {}, None, None
        for ln in text.split("\n"):
            m = re.match(r"(input|output|params|run|script|shell|threads|resources|log|message)\s*:\s*(.*)$", ln)
            if m:
                cur = m[1]
                d[cur] = m[2] + "\n"
            elif cur is not None and (not ln.strip() or ln[0].isspace()):
                d[cur] += ln + "\n"
        if "run" in d:
            body = textwrap.dedent(d.pop("run").lstrip("\n"))
        for k in list(d):
            if not d[k].strip():
                del d[k]
        return d, body

    def job(self, path):
        for r in self.rules.values():
            w = r.match(path)
            if w is not None:
                return r, w
        return None

    def build(self, path, done=None, before=None):
        """Make a file and whatever it needs."""
        done = set() if done is None else done
        if path in done or os.path.exists(path):
            return
        found = self.job(path)
        if found is None:
            raise FileNotFoundError(path)
        r, w = found
        for p in r.inputs(w):
            self.build(p, done, before)
        if before:
            before(r, w)
        r.run(w)
        done.add(path)


def stubs():
    """Stand-ins for modules that the workflows import and that are not installed."""
    import importlib.util

    if importlib.util.find_spec("subplots_from_axsize") is None and "subplots_from_axsize" not in sys.modules:
        from bmi.plot_utils.subplots_from_axsize import subplots_from_axsize

        # the published package takes the numbers of rows and columns first
        m = types.ModuleType("subplots_from_axsize")
        m.subplots_from_axsize = lambda nrows=1, ncols=1, axsize=(3.0, 2.0), **kw: subplots_from_axsize(axsize=axsize, nrows=nrows, ncols=ncols, **kw)
        sys.modules["subplots_from_axsize"] = m
    if "seaborn" not in sys.modules and importlib.util.find_spec("seaborn") is None:
        m = types.ModuleType("seaborn")
        m.heatmap = lambda *a, **k: None
        sys.modules["seaborn"] = m
    r = types.ModuleType("resource")
    r.setrlimit = lambda *a: None
    r.RLIMIT_DATA, r.RLIMIT_AS = 2, 9
    sys.modules["resource"] = r
