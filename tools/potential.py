"""Reference model of the polynomial potential that stands in for V_eff in toy scenarios (port of sim/toy.hpp)."""
import math

TILT = (1, 0.25, 0.12, 0.35, 0.18, 0.05, 0.05, 0.05)


class Toy:
    def __init__(self, s):
        self.s, self.n = s, int(s["n"])

    def _c(self, i):
        return i if i < 2 else 2

    def V(self, p, T, constant=True):
        s, v = self.s, 0.0
        for i in range(self.n):
            c = self._c(i)
            cub = s["A"][c] + s["E"][c] * T
            m = T * T - s["T0"][c] * abs(s["T0"][c])
            D = s["D"][c] * (1 + 0.05 * i)
            x = p[i]
            v += D * m * x * x - cub * abs(x ** 3) + 0.25 * s["L"][c] * x ** 4
            if i:
                v += 0.5 * s["K"] * p[0] ** 2 * x * x + 0.5 * s.get("M", 0) * (x - TILT[i] * p[0]) ** 2
        if constant:
            v -= math.pi ** 2 / 90 * 106.75 * T ** 4
        return v

    def grad(self, p, T):
        s, g = self.s, [0.0] * self.n
        for i in range(self.n):
            c = self._c(i)
            cub = s["A"][c] + s["E"][c] * T
            m = T * T - s["T0"][c] * abs(s["T0"][c])
            D = s["D"][c] * (1 + 0.05 * i)
            x = p[i]
            g[i] += 2 * D * m * x - 3 * cub * x * abs(x) + s["L"][c] * x ** 3
            if i:
                g[i] += s["K"] * p[0] ** 2 * x
                d = s.get("M", 0) * (x - TILT[i] * p[0])
                g[i] += d
                g[0] += s["K"] * p[0] * x * x - TILT[i] * d
        return g

    def descend(self, p, T, steps=4000):
        """the local minimum below p (damped Newton per coordinate, then gradient steps)"""
        x = list(p)
        for _ in range(steps):
            moved = 0.0
            for i in range(self.n):
                h = max(1e-4, abs(x[i]) * 1e-6)
                a = list(x)
                b = list(x)
                a[i] += h
                b[i] -= h
                ga, gb, g = self.grad(a, T)[i], self.grad(b, T)[i], self.grad(x, T)[i]
                k = (ga - gb) / (2 * h)
                d = -g / k if k > 1 else (-g / 2000.0)
                d = max(-5.0, min(5.0, d))
                x[i] += d
                moved = max(moved, abs(d))
            if moved < 1e-9:
                break
        return x

    def follow(self, p, T1, T2, step=0.5):
        """the minimum p of T1 followed to T2; None if it disappears or moves too fast to follow"""
        n = max(1, int(abs(T2 - T1) / step))
        x = self.descend(p, T1)
        for k in range(1, n + 1):
            y = self.descend([c + 1e-3 for c in x], T1 + (T2 - T1) * k / n)
            if max(abs(a - b) for a, b in zip(x, y)) > 15:
                return None
            x = y
        return x

    def distance_to_minimum(self, p, T):
        m = self.descend(p, T)
        return math.sqrt(sum((abs(a) - abs(b)) ** 2 for a, b in zip(p, m)))

    def global_minimum(self, T):
        best = None
        for a in (0.0, 30.0, 80.0, 150.0, 250.0, 350.0):
            for b in ((0.0, 30.0, 100.0, 220.0) if self.n > 1 else (0.0,)):
                st = [a + 0.1] + [b + 0.1] * min(1, self.n - 1) + [0.1] * max(0, self.n - 2)
                m = self.descend(st, T)
                v = self.V(m, T)
                if best is None or v < best[0] - 1e-9:
                    best = (v, m)
        return best
