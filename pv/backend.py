"""Other solvers, on the SMT-LIB text of an obligation: a newer z3, and cvc5."""
import os
import shutil
import subprocess
import tempfile
import z3

NEW = shutil.which("z3-new")


def z3new(solver, ms):
    """'unsat', 'sat' or None."""
    if not NEW:
        return None
    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(solver.to_smt2())
        r = subprocess.run([NEW, f"-T:{max(1, ms // 1000)}", "-memory:3000", p], capture_output=True, text=True, timeout=ms / 1000 + 20).stdout.strip()
        return r if r in ("sat", "unsat") else None
    except (OSError, subprocess.SubprocessError):
        return None
    finally:
        os.unlink(p)


def cvc5_unsat(solver, ms):
    try:
        import cvc5
        txt = solver.to_smt2()
        # z3 prints some things cvc5 does not read; such obligations are simply not retried
        if "(lambda" in txt or "as const" in txt or "(_ map" in txt:
            return False
        s = cvc5.Solver()
        s.setOption("tlimit-per", str(ms))
        p = cvc5.InputParser(s)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + txt, "o")
        sm = p.getSymbolManager()
        res = ""
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            res = c.invoke(s, sm) or res
        return "unsat" == str(res).strip()
    except Exception:
        return False
