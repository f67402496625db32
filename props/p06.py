"""Every file opened by the library is closed on every way out; files handed in by the caller are left open."""
import ast

from msa.handles import Analysis
from msa.loader import Program

ASSUMPTIONS = ["`with` closes what it manages on every way out", "closing a handle releases it even if close() itself raises", "assignments of plain names, attributes and constants do not raise"]


def entry_points(A):
    """Functions that receive a file from the user: registered readers and writers, and what the package exports."""
    out = {}
    for m in A.prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] == "register_format":
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and (m.name, x.id) in A.by_name:
                        f = A.by_name[(m.name, x.id)]
                        out[f.name] = f
                    elif isinstance(x, ast.Name):
                        f = A.callee(type("F", (), {"mod": m, "cls": None}), ast.Call(x, [], []))
                        if f is not None:
                            out[f.name] = f
    for (mod, name), f in A.by_name.items():
        if name in ("read", "write", "write_points_cells", "open_file"):
            out[f.name] = f
    return out


def run(rep):
    rep.rule = ("Typestate per opening site (open, h5py.File, netCDF4.Dataset, ... and functions returning such a handle): on every path out of the function, normal or by exception from any statement that may raise, the handle was "
                "closed, is managed by `with` or an exit stack, was returned, or is kept in an attribute that __exit__ closes on every path. Functions that receive a file from the user, and everything they pass it to, never close it.")
    A = Analysis(Program())
    out = A.run()
    for (fn, _, what, k), (verdict, msg) in sorted(out.items()):
        key = f"{fn}:{what}" + (f"#{k}" if k else "")
        if verdict == "bad":
            rep.bad("opened", "not-closed", key, f"the handle opened by {what} in {fn} {msg}")
        elif verdict == "skip":
            rep.skip("opened", f"{key}: {msg}")
        else:
            rep.ok("opened", f"{key}: {msg}")
    eps = entry_points(A)
    for name, f in sorted(eps.items()):
        if f.closes:
            rep.bad("supplied", "closes-supplied-file", name, f"{name} closes the file its caller passed as {', '.join(f.params[i] for i in sorted(f.closes))}")
        else:
            rep.ok("supplied", f"{name} does not close what it is given" + (f", hands out {f.params[min(f.yields)]} as it is" if f.yields else ""))
    rep.extra["functions"] = len(A.fns)
    rep.floor("opened", 6)
    rep.floor("supplied", 20)
