"""Contracts of the configuration: which file is read, what the options are, that it is read once."""
from contract import *
from models import *
from c_decor import Local, environ, V_, S_
import c_registers as R

WORLD = ((True, True),)
f1 = lambda n, r=Bool: z3.Function(n, StrS, r)
ISF, EXI = f1("isfile"), f1("path_exists")
ABS, USER = f1("abspath", StrS), f1("expanduser", StrS)
JOIN = z3.Function("path_join", StrS, StrS, StrS)
CWD = z3.Const("cwd", StrS)
TOML, CFG = f1("toml_has_config"), f1("cfg_has_config")
DIR = z3.Function("DIR", Int, StrS)          # the working directory and its parents
UP = z3.Function("UPFILES", Int, TupS)       # astarc files of the first k parents
PKG = z3.Function("ALLPKG", Int, Bool)       # the first k directories are packages
L = str_const
OS = ("os.path.isfile, exists, abspath, join, expanduser and getcwd are functions of the file system, which does not change during the search",)


def files(eng, w):
    s = lambda e, x: V.sval(e.to_V(x))
    for p, f in (("isfile", ISF), ("exists", EXI)):
        w.ext_handlers["os.path." + p] = lambda e, a, k, f=f: SBool(f(s(e, a[0])))
    for p, f in (("abspath", ABS), ("expanduser", USER), ("realpath", f1("realpath", StrS)), ("dirname", f1("dirname", StrS))):
        w.ext_handlers["os.path." + p] = lambda e, a, k, f=f: e.from_V(V.S(f(s(e, a[0]))))

    def join(e, a, k):
        t = s(e, a[0])
        for x in a[1:]:
            t = JOIN(t, s(e, x))
        return e.from_V(V.S(t))
    w.ext_handlers["os.path.join"] = join
    w.ext_handlers["os.getcwd"] = lambda e, a, k: Sym(V.S(CWD))


class Search(Contract):
    """The files that are looked at, in the documented order."""
    qual = "asta.config.find_default_config_files"
    props = ("C17",)
    worlds = WORLD
    trusted = OS + ("_toml_has_config and _cfg_has_config (toml, configparser) say whether a file has a section for asta: checked at run time",)

    def setup(self, eng):
        w = self.w
        eng.use_monoid()
        files(eng, w)
        self.has, self.rc = environ(eng, w)
        self.has, self.rc = z3.Function("env_has", StrS, Bool)(L("ASTARC")), z3.Function("env_get", StrS, StrS)(L("ASTARC"))
        s = lambda e, x: V.sval(e.to_V(x))
        eng.contracts = dict(eng.contracts)
        for q, f in (("_toml_has_config", TOML), ("_cfg_has_config", CFG)):
            def fn(e, a, f=f):
                p = V.sval(e.to_V(a["path"]))
                self.ob(e, "only files that exist are opened", ISF(p))
                return SBool(f(p))
            eng.contracts["asta.config." + q] = Local(fn)
        init = lambda k: ISF(JOIN(DIR(k), L("__init__.py")))
        self.init = init
        eng.assume(z3.And(DIR(0) == ABS(CWD), UP(0) == EMPTYT, PKG(0)))
        opt = lambda c, p: z3.If(c, tunit(V.S(p)), EMPTYT)
        # relative names are those of the working directory
        eng.assume(ISF(L("__init__.py")) == ISF(JOIN(ABS(CWD), L("__init__.py"))))

        class T:
            @staticmethod
            def invs(lv):
                out = [(("pkg",), PKG(lv.k))]
                for x, a, b in lv.modvars():
                    if isinstance(b, Sym) and is_S(b):
                        out.append((("dir", x), b.t == V.S(DIR(lv.k))))
                for x, a, c in lv.lists():
                    if a is not None:
                        out.append((("up", x), c == tcat(a, UP(lv.k))))
                return out

            @staticmethod
            def defs(lv):
                out = []
                for j in (lv.k, lv.k - 1):
                    d = DIR(j + 1)
                    out.append(z3.Implies(j >= 0, z3.And(d == ABS(JOIN(DIR(j), L(".."))), PKG(j + 1) == z3.And(PKG(j), init(j)),
                                                         UP(j + 1) == tcat(tcat(UP(j), opt(ISF(JOIN(d, L("astarc"))), JOIN(d, L("astarc")))), opt(ISF(JOIN(d, L(".astarc"))), JOIN(d, L(".astarc")))))))
                return out

        def is_S(b):
            t = z3.simplify(b.t)
            return z3.is_app(t) and t.decl().name() == "S"
        eng.tmpl.append(T)
        # the number of package directories from the working directory upwards
        m = self.m = eng.fresh(Int, "depth")
        j = z3.Int("j!pk")
        eng.assume(z3.And(m >= 0, PKG(m), z3.Not(init(m))))
        eng.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, PKG(j), z3.Not(init(j))), j == m), patterns=[PKG(j)]))
        eng.assume(z3.Implies(m > 0, init(0)))
        return {}

    def run(self, eng, f, a):
        return eng.materialise(eng.call(f, [], {}))

    def post(self, eng, a, out):
        if out[0] != "ok":
            self.ob(eng, "the search raises nothing", False, f"raises {out[1]}")
            return
        opt = lambda c, p: z3.If(c, tunit(V.S(p)), EMPTYT)
        A = z3.And
        parts = [opt(A(ISF(L(n)), *([TOML(L(n))] if n.endswith(".toml") else []), *([CFG(L(n))] if n.endswith(".cfg") else [])), ABS(L(n))) for n in ("astarc", ".astarc", "pyproject.toml", "setup.cfg")]
        parts.append(z3.If(ISF(L("__init__.py")), UP(self.m), EMPTYT))
        home, named = USER(L("~")), A(self.has, EXI(self.rc))
        parts.append(opt(A(named, ISF(self.rc)), self.rc))
        at_home = A(z3.Not(named), home != L("~"), home != L("/root"))
        parts += [opt(A(at_home, ISF(p)), p) for p in (JOIN(home, L(".astarc")), JOIN(JOIN(home, L(".config")), L("astarc")))]
        parts.append(opt(ISF(L("/etc/astarc")), L("/etc/astarc")))
        t = EMPTYT
        for p in parts:
            t = tcat(t, p)
        self.ob(eng, "the files found, in the documented order", eng.tup_term(out[1]) == t)


class First(Contract):
    """The first file of the search, or None."""
    qual = "asta.config.find_astarc"
    props = ("C17",)
    worlds = WORLD

    def setup(self, eng):
        b = self.b = eng.fresh(TupS, "found")
        eng.contracts = dict(eng.contracts)
        eng.contracts["asta.config.find_default_config_files"] = Local(lambda e, a: Seq(b, z3.IntVal(0), tlen(b)))
        return {}

    def post(self, eng, a, out):
        if out[0] != "ok":
            self.ob(eng, "nothing is raised", False, f"raises {out[1]}")
            return
        self.ob(eng, "the first file found, or None", eng.to_V(out[1]) == z3.If(tlen(self.b) > 0, tat(self.b, 0), V.N))


NORM = z3.Function("str_replace", StrS, StrS, StrS, StrS)
norm = lambda k: V.S(NORM(V.sval(k), L("-"), L("_")))
conv = lambda v: z3.If(v == V.S(L("yes")), V.B(True), z3.If(v == V.S(L("no")), V.B(False), v))


class GetOx(Contract):
    """Settings of the file over the defaults, yes and no as booleans; made once."""
    qual = "asta.config.get_ox"
    props = ("C17",)
    worlds = WORLD
    trusted = OS + ("read_config and as_dict (configparser, toml) give the sections of a file as mappings of texts: checked at run time",
                    "no two option names differ only in '-' and '_'", "the Oxentiel object holds the settings it is made with")

    def setup(self, eng):
        w = self.w
        files(eng, w)
        eng.kinds = ("S", "X", "O", "T")
        self.made = eng.choose(2) == 1
        m = "m:asta._internal"
        self.old = eng.freshV("config")
        if self.made:
            eng.assume(z3.And(is_("O", self.old.t), otruth(V.oval(self.old.t))))
            w.module_set(eng, "asta._internal", "ox", self.old)
        else:
            w.module_set(eng, "asta._internal", "ox", None)
        self.path = eng.freshV("path")
        eng.assume(z3.Or(is_("N", self.path.t), z3.And(is_("S", self.path.t), self.path.t != V.S(L("")))))
        self.F, self.fh, self.fg = R.symdict(eng, "file")
        self.D, self.dh, self.dg = R.symdict(eng, "defaults")
        self.master = eng.fresh(Bool, "file_has_section")
        k = z3.Const("k!cf", V)
        k2 = z3.Const("k2!cf", V)
        for h, g in ((self.fh, self.fg), (self.dh, self.dg)):
            eng.assume(z3.ForAll([k], z3.Implies(z3.Select(h, k), z3.And(is_("S", k), is_("S", z3.Select(g, k)))), patterns=[z3.Select(h, k)]))
        both = lambda k: z3.Or(z3.Select(self.fh, k), z3.Select(self.dh, k))
        eng.assume(z3.ForAll([k, k2], z3.Implies(z3.And(both(k), both(k2), norm(k) == norm(k2)), k == k2), patterns=[z3.MultiPattern(norm(k), norm(k2))]))
        self.reads, self.made_with = 0, []
        P = {"file": eng.alloc("inst", (Ext("configparser.ConfigParser"), {"$which": "file"})), "defaults": eng.alloc("inst", (Ext("configparser.ConfigParser"), {"$which": "defaults"}))}
        eng.ghost_set("reads", 0)

        def find(e, a):
            e.ghost_set("reads", e.ghost_get("reads") + 1)
            return self.path

        def read(e, a):
            p = e.to_V(a["config_path"])
            e.ghost_set("reads", e.ghost_get("reads") + 1)
            if e.valid(p == self.path.t) == "unsat":
                self.ob(e, "a file is read only if it is there", EXI(V.sval(p)))
                return P["file"]
            t = z3.simplify(V.sval(p))
            s = t.arg(1) if z3.is_app(t) and t.decl().name() == "path_join" else t
            self.ob(e, "beside the file found, only the defaults are read", z3.BoolVal(str_of(s) == "defaults/astarc"))
            return P["defaults"]

        def asd(e, a):
            which = e.rec(a["config"]).data[1]["$which"]
            d = e.alloc("dict", ("c", (("MASTER", self.F if which == "file" else self.D),)))
            return d

        def contains(e, x, c):
            if isinstance(c, Ref) and e.rec(c).kind == "inst" and "$which" in e.rec(c).data[1]:
                return (self.master if e.rec(c).data[1]["$which"] == "file" else True,) if e.to_V(x).eq(V.S(L("MASTER"))) else None
        eng.hooks.setdefault("contains", []).append(contains)
        w.ext_handlers["configparser.ConfigParser"] = lambda e, a, k: e.alloc("inst", (Ext("configparser.ConfigParser"), {"$which": "new"}))
        eng.contracts = {q: c for q, c in eng.contracts.items() if q != "asta.config.get_ox"}
        for q, fn in (("find_astarc", find), ("read_config", read), ("as_dict", asd)):
            eng.contracts["asta.config." + q] = Local(fn)
        eng.assume(ISF(JOIN(f1("dirname", StrS)(f1("realpath", StrS)(L(self.file(eng)))), L("defaults/astarc"))))

        def new(e, a, k):
            if not (isinstance(a[0], Ref) and e.rec(a[0]).kind == "dict"):
                raise Unsupported("Oxentiel of something else")
            d = e.dict_symbolic(a[0])
            e.ghost_set("with", (d[1], d[2]))
            self.mut = k.get("mutable", a[1] if len(a) > 1 else False)
            o = e.alloc("inst", (Ext("oxentiel.Oxentiel"), {}))
            self.new = o
            return o
        w.ext_handlers["oxentiel.Oxentiel"] = new
        me = self
        fh = self.fh0 = z3.If(z3.And(z3.Not(is_("N", self.path.t)), EXI(V.sval(self.path.t)), self.master), self.fh, EMPTY)
        self.eff = lambda k: z3.If(z3.Select(fh, k), z3.Select(self.fg, k), z3.Select(self.dg, k))

        class T:
            @staticmethod
            def invs(lv):
                out = []
                if lv.it is None or lv.it.seq is None and not hasattr(lv.it, "at"):
                    return out
                ks = lv.eng.dict_keys(me.D)
                first = z3.simplify(lv.n).eq(z3.simplify(lv.eng.seq_len(ks)))
                for x, a, b in lv.dicts():
                    if a is None:
                        continue
                    (h0, g0), (h, g) = a, b
                    k, j = z3.Const("k!in", V), z3.Int("j!in")
                    key = lambda j: me.key(lv, j)
                    kj = key(j)
                    if kj is None:
                        continue
                    S = z3.Select
                    if not first:
                        out.append((("conv", x), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < lv.k), z3.And(S(h, norm(kj)), S(g, norm(kj)) == conv(me.eff(kj)))), patterns=[kj])))
                        out.append((("only", x), z3.ForAll([k], z3.Implies(S(h, k), z3.Exists([j], z3.And(0 <= j, j < lv.k, k == norm(kj)))), patterns=[S(h, k)])))
                        continue
                    # setdefault: what is there stays, the others are taken over
                    out.append((("keep", x), z3.ForAll([k], z3.Implies(S(h0, k), z3.And(S(h, k), S(g, k) == S(g0, k))), patterns=[S(h, k)] + ([S(h0, k)] if not h0.eq(EMPTY) else []))))
                    out.append((("src", x), z3.ForAll([k], z3.Implies(S(h, k), z3.Or(S(h0, k), z3.And(S(me.dh, k), S(g, k) == S(me.dg, k)))), patterns=[S(h, k)])))
                    out.append((("got", x), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < lv.k), S(h, kj)), patterns=[kj])))
                return out
        eng.tmpl.append(T)
        return {}

    def file(self, eng):
        return eng.heap["m:asta.config"].data["__file__"]

    def key(self, lv, j):
        x = lv.it.at(j)
        if isinstance(x, Tup):
            x = x.items[0]
        return lv.eng.to_V(x)

    def post(self, eng, a, out):
        if out[0] != "ok":
            self.ob(eng, "the configuration can be made", False, f"raises {out[1]} {out[1].value}")
            return
        r = out[1]
        now = eng.heap["m:asta._internal"].data.get("ox")
        self.ob(eng, "the object is kept", z3.BoolVal(now is not None) if now is None else eng.to_V(now) == eng.to_V(r))
        if self.made:
            self.ob(eng, "the one object is returned from then on", eng.to_V(r) == self.old.t)
            self.ob(eng, "nothing is read a second time", z3.BoolVal(eng.ghost_get("reads") == 0 and eng.ghost_get("with") is None))
            return
        w = eng.ghost_get("with")
        if w is None or r != self.new:
            self.ob(eng, "an option object is made", False)
            return
        self.ob(eng, "options can be switched", z3.BoolVal(self.mut is True))
        h, g = w
        k = eng.fresh(V, "option")
        S = z3.Select
        eng.assume(is_("S", k))
        has = z3.Or(S(self.fh0, k), S(self.dh, k))
        self.ob(eng, "an option is what the file says, else its default; yes and no are booleans", z3.Implies(has, z3.And(S(h, norm(k)), S(g, norm(k)) == conv(self.eff(k)))))
        n = eng.fresh(V, "name")
        q = z3.Const("q!cf", V)
        self.ob(eng, "there are no other options", z3.Implies(S(h, n), z3.Exists([q], z3.And(z3.Or(S(self.fh0, q), S(self.dh, q)), n == norm(q)))))


ALL = [Search, First, GetOx]
DEPS = []
