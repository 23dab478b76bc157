"""Setup step: checks the reference models against closed forms, and that the package can be imported."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from mc.ref import frame as RF

E, A, I, L = 210e3, 2000., 4e6, 4000.
def beam(**k):
    return dict(t="beam", n=[0, 1], E=E, A=A, I=I, **k)

def main():
    m = {"nodes": [[0, 0], [L, 0]], "els": [beam()], "supp": [[1, 0, [0, 1, 2]]],
         "loads": [{"k": "L", "sid": 2, "el": 0, "q": [-3, -3], "dir": "y", "cs": "global", "f": 1.0}]}
    u, f = RF.solve(m, 1, 2)
    assert np.isclose(u[1, 1], -3 * L**4 / 8 / E / I)
    assert np.isclose(f[0]["my"][0], -3 * L**2 / 2) and np.isclose(f[0]["fz"][0], 3 * L)
    m["supp"] = [[1, 0, [0, 1]], [1, 1, [1]]]
    u, f = RF.solve(m, 1, 2)
    assert np.isclose(u[0, 2], -3 * L**3 / 24 / E / I)
    # propped cantilever through a hinge release
    m["supp"] = [[1, 0, [0, 1, 2]], [1, 1, [0, 1, 2]]]
    m["els"][0]["rel"] = [5]
    u, f = RF.solve(m, 1, 2)
    assert np.isclose(f[0]["my"][0], -3 * L**2 / 8) and abs(f[0]["my"][1]) < 1e-3
    # triangular load, fixed-fixed: M0 = qL^2/30, ML = qL^2/20
    m["els"][0]["rel"] = []
    m["loads"][0]["q"] = [0, -3]
    u, f = RF.solve(m, 1, 2)
    assert np.isclose(abs(f[0]["my"][0]), 3 * L**2 / 30) and np.isclose(abs(f[0]["my"][1]), 3 * L**2 / 20)
    # Euler load with 8 elements
    n = 8
    m = {"nodes": [[0, i * L / n] for i in range(n + 1)],
         "els": [dict(t="beam", n=[i, i + 1], E=E, A=A, I=I) for i in range(n)],
         "supp": [[1, 0, [0, 1]], [1, n, [0]]], "loads": [{"k": "P", "sid": 2, "n": n, "v": [0, -1000, 0]}]}
    lam, _ = RF.buckling(m, 1, 2, 1)
    assert np.isclose(lam[0] * 1000, np.pi**2 * E * I / L**2, rtol=1e-3)
    # closed-form section properties against outline integration
    from mc.drv import sections as S
    for k, d in (("RHS", dict(H=150., B=100., T=5.)), ("SHS", dict(H=120., T=8.)), ("CHS", dict(D=168.3, T=5.)),
                 ("I", dict(H=190., B=200., tw=6.5, tf=10., r=18.))):
        a, b = S.closed(k, d), S.ref(k, d)
        for q in ("A", "It", "Iw"):
            assert np.isclose(a[q], b[q], rtol=1e-4), (k, q, a[q], b[q])
        for q in ("I", "Wel", "Wpl", "Ashear"):
            assert np.allclose(a[q], b[q], rtol=1e-4), (k, q, a[q], b[q])
    import subprocess
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", "import metku.framefem.framefem, metku.raami.raami"],
                       cwd=os.environ.get("METKU_REPO", "/repo"), env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg"))
    print("selftest ok; package import rc", r.returncode)

if __name__ == "__main__":
    main()
