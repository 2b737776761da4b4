"""Writes CONTRACTS.md: every contract, the functions it is on, the properties it serves, its assumptions, and the bounded checks."""
import ast, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from qmv import driver
reg = driver.load_contracts()
out = ["# Contracts", "", "Generated by `python3-vt tools/gen_contracts.py` from the registry (qmv/contracts) and the run-time checks (qmv/concrete).", ""]
bounded = {}
for f in sorted((V / "qmv" / "concrete").glob("c_*.py")):
    for n in ast.parse(f.read_text()).body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "check":
                    kw = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
                    for p in ast.literal_eval(d.args[0]).split():
                        bounded.setdefault(p, []).append((n.name, kw, (ast.get_docstring(n) or "").split("\n")[0]))
for i in range(1, 28):
    p = f"C{i:02d}"
    out += [f"## {p}", "", "Proved (all inputs, all iterations, under the assumptions listed):", ""]
    for c in reg:
        if p in c.props:
            out.append(f"- **{c.name}** — on `{', '.join(c.fns)}`. {' '.join(c.doc.split())}")
            for a in c.assumes:
                out.append(f"  - assumes: {a}")
    if not any(p in c.props for c in reg):
        out.append("- (none)")
    out += ["", "Bounded (run-time evaluation on the real code, never counted as proved; trials quick/thorough):", ""]
    for n, kw, doc in bounded.get(p, []):
        out.append(f"- {n} ({kw.get('quick')}/{kw.get('thorough')})" + (f": {doc}" if doc else ""))
    out.append("")
(V / "CONTRACTS.md").write_text("\n".join(out))
print(len(reg), "contracts")
