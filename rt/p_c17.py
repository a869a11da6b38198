from common import *
import importlib, os, shutil, tempfile

RULE = ("random sets of configuration files (every name and place that is searched, INI and TOML, with and without the section, partial settings, booleans and other texts, "
        "comments, upper-case keys, a byte-order mark) and values of ASTARC, HOME and ASTA_TYPECHECK; the package is imported afresh in that directory and the options, the "
        "identity of the option object after the files are changed, and whether a function gets wrapped are compared with the search order; nontrivial: two files or more")

DEFAULTS = {"on": "yes", "raise-errors": "yes", "print-passes": "yes", "check-non-asta-types": "no", "check-all-sequence-elements": "yes"}


def nontrivial(c):
    return len(c["files"]) >= 2


def text(kind, opts, style):
    """The text of a file of that kind; opts None: no section for asta at all."""
    if kind == "toml":
        if opts is None:
            return "[tool.other]\nx = 1\n"
        lines = ["[build-system]", "requires = []", "[tool.asta.%s]" % style.get("sect", "master")]
        for k, v in opts.items():
            lines.append(f"{k} = " + (("true" if v == "yes" else "false") if v in ("yes", "no") and style.get("bool", True) else v if v.isdigit() else '"%s"' % v))
        return "\n".join(lines) + "\n"
    if opts is None:
        return "[metadata]\nname = x\n[other.asta]\non = no\n" if kind == "cfg" else "[OTHER]\non=no\n"
    sect = style.get("sect", "MASTER") if kind == "rc" else "asta." + style.get("sect", "master")
    lines = ["# a comment"] if style.get("comment") else []
    lines += ["[%s]" % sect]
    for k, v in opts.items():
        k = k.upper() if style.get("upper") else k
        lines.append({0: f"{k}={v}", 1: f"{k} = {v}", 2: f"{k}: {v}"}[style.get("sep", 0)])
    return ("\ufeff" if style.get("bom") else "") + "\n".join(lines) + "\n"


def kind_of(path):
    return "toml" if path.endswith(".toml") else "cfg" if path.endswith(".cfg") else "rc"


def first(c):
    """The settings of the first file of the search order, or None."""
    f = {p: o for p, o, _ in c["files"]}
    for n in ("a/b/astarc", "a/b/.astarc"):
        if n in f:
            return n, f[n] or {}
    for n in ("a/b/pyproject.toml", "a/b/setup.cfg"):
        if n in f and f[n] is not None:
            return n, f[n]
    if "a/b/__init__.py" in c["inits"]:
        for d, pkg in (("a", "a/__init__.py"), ("", "__init__.py")):
            for n in ("astarc", ".astarc"):
                q = (d + "/" if d else "") + n
                if q in f:
                    return q, f[q] or {}
            if pkg not in c["inits"]:
                break
    if c["astarc"] in ("file",):
        return "rcs/my", (f.get("rcs/my") or {})
    if c["astarc"] == "dir":
        return None, {}
    if c["home"]:
        for n in ("home/.astarc", "home/.config/astarc"):
            if n in f:
                return n, f[n] or {}
    return None, {}


def run(c):
    if os.path.exists("/etc/astarc"):
        raise Skip()
    top = tempfile.mkdtemp(prefix="asta_c17_")
    cwd, env0 = os.getcwd(), dict(os.environ)
    saved = {k: m for k, m in sys.modules.items() if k == "asta" or k.startswith("asta.")}
    try:
        for d in ("a/b", "home/.config", "rcs"):
            os.makedirs(os.path.join(top, d))
        for p in c["inits"]:
            open(os.path.join(top, p), "w").close()
        for p, o, st in c["files"]:
            with open(os.path.join(top, p), "w", encoding="utf-8") as fh:
                fh.write(text(kind_of(p), o, st))
        for k in saved:
            del sys.modules[k]
        os.chdir(os.path.join(top, "a/b"))
        for k in ("ASTARC", "ASTA_TYPECHECK", "HOME"):
            os.environ.pop(k, None)
        os.environ["HOME"] = os.path.join(top, "home") if c["home"] else "/root" if c["home"] is None else os.path.join(top, "nothing")
        if c["astarc"]:
            os.environ["ASTARC"] = os.path.join(top, {"file": "rcs/my", "dir": "rcs", "missing": "rcs/none"}[c["astarc"]])
        if c["env"] is not None:
            os.environ["ASTA_TYPECHECK"] = c["env"]
        with quiet():
            mod = importlib.import_module("asta")
            get = importlib.import_module("asta.config").get_ox
        o1 = get()
        where, st = first(c)
        want = {**DEFAULTS, **{k.lower(): v for k, v in st.items()}}
        on = want["on"] == "yes" and c["env"] in (None, "1")

        def f(a: mod.Array[2]):
            return a
        with quiet():
            wrapped = mod.typechecked(f) is not f
        if wrapped != on:
            return f"decorating wraps: {wrapped}, expected {on} (file {where}, ASTA_TYPECHECK={c['env']!r})"
        for k, v in want.items():
            v = {"yes": True, "no": False}.get(v, v)
            if k == "on":
                v = on
            got = getattr(o1, k.replace("-", "_"), "<missing>")
            if got is not v and not (isinstance(v, str) and got == v):
                return f"option {k} is {got!r}, expected {v!r} (file {where})"
        # changing the files and the environment afterwards changes nothing
        with open("astarc", "w") as fh:
            fh.write("[MASTER]\n" + "".join(f"{k}={'no' if v == 'yes' else 'yes'}\n" for k, v in DEFAULTS.items()))
        if get() is not o1:
            return "a second read gives another object"
        for m in ("asta.decorators", "asta.classes", "asta.display", "asta.origins"):
            importlib.import_module(m)
        if get() is not o1 or mod.Array.OX is not o1:
            return "a part of the package uses another option object"
        with quiet():
            w2 = mod.typechecked(f) is not f
        if w2 != on:
            return "the files are read again"
        if wrapped:
            o1.on = False
            with quiet():
                if mod.typechecked(f) is not f:
                    return "an option changed on the object is not seen"
    finally:
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env0)
        for k in [k for k in sys.modules if k == "asta" or k.startswith("asta.")]:
            del sys.modules[k]
        sys.modules.update(saved)
        shutil.rmtree(top)


PLACES = ["a/b/astarc", "a/b/.astarc", "a/b/pyproject.toml", "a/b/setup.cfg", "a/astarc", "a/.astarc", "astarc", ".astarc", "home/.astarc", "home/.config/astarc"]


def gen_opts(rng, kind):
    if rng.random() < 0.15:
        return None
    o = {}
    for k in DEFAULTS:
        if rng.random() < 0.5:
            o[k] = rng.choice(("yes", "no")) if k == "on" or rng.random() < 0.75 else rng.choice(("Yes", "true", "1", "maybe", "no way", "yesno", "off", "None", "", "50%", "%(on)s", "%%"))
    if rng.random() < 0.3:
        o[rng.choice(("extra-option", "custom", "a-b-c"))] = rng.choice(("yes", "no", "text", "12"))
    if not o and kind != "rc":
        o["on"] = rng.choice(("yes", "no"))
    return o


def gen_style(rng, kind):
    st = dict(comment=rng.random() < 0.3, sep=rng.choice((0, 0, 1, 2)), bool=rng.random() < 0.7)
    if kind == "rc":
        st["sect"] = rng.choice(("MASTER", "MASTER", "master", "Master"))
        st["bom"] = rng.random() < 0.1
        st["upper"] = rng.random() < 0.15
    else:
        st["sect"] = rng.choice(("master", "MASTER", "Master"))
    return st


def mkfile(rng, p, opts=False):
    k = kind_of(p)
    o = gen_opts(rng, k) if opts is False else opts
    st = gen_style(rng, k)
    if o is not None and not o and st.get("sect") != "MASTER":
        st["sect"] = "MASTER"
    return [p, o, st]


def cases(tier, rng):
    deep = tier == "thorough"
    inits = ["__init__.py", "a/__init__.py", "a/b/__init__.py"]
    allon = ["a/b/__init__.py", "a/__init__.py"]
    # each place alone, and each pair of neighbours in the order, disagreeing
    for env in (None, "1", "0", "", "yes", "2", "true"):
        for on in (None, "yes", "no"):
            yield dict(files=[mkfile(rng, "a/b/astarc", {"on": on})] if on else [], inits=[], astarc=None, home=True, env=env)
    for i, p in enumerate(PLACES):
        for opt in DEFAULTS:
            for v in ("yes", "no"):
                w = "no" if v == "yes" else "yes"
                yield dict(files=[mkfile(rng, p, {opt: v})], inits=allon, astarc=None, home=True, env=None)
                q = rng.choice(PLACES[i + 1:] or ["rcs/my"])
                yield dict(files=[mkfile(rng, p, {opt: v}), mkfile(rng, q, {o: w for o in DEFAULTS})], inits=allon, astarc=None, home=True, env=None)
        for q in PLACES[:i]:
            for inits_ in (allon, []):
                yield dict(files=[mkfile(rng, q, {"raise-errors": "no"}), mkfile(rng, p, {"print-passes": "no", "on": "no"})], inits=inits_, astarc=None, home=True, env=None)
                yield dict(files=[mkfile(rng, q, None), mkfile(rng, p, {"print-passes": "no"})], inits=inits_, astarc=None, home=True, env=None)
    for a in ("file", "dir", "missing"):
        for p in PLACES:
            yield dict(files=[mkfile(rng, p, {"print-passes": "no"}), mkfile(rng, "rcs/my", {"raise-errors": "no"})], inits=[], astarc=a, home=True, env=None)
    for _ in range(500 if not deep else 20000):
        fs = [mkfile(rng, p) for p in rng.sample(PLACES, rng.choice((0, 1, 1, 2, 2, 3, 5)))]
        a = rng.choice((None, None, None, "file", "dir", "missing"))
        if a:
            fs.append(mkfile(rng, "rcs/my"))
        yield dict(files=fs, inits=[x for x in inits if rng.random() < 0.5], astarc=a, home=rng.choice((True, True, False, None)), env=rng.choice((None, None, "1", "0", "x")))
