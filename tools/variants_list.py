# ------------------------------------------------------------------ math
v("vo-asvoigt-table", body(VO, "asvoigt", '''
    pairs = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]
    if mode == 2:
        return np.array([A[i, j] for i, j in pairs])
    elif mode == 4:
        B = np.empty((6, 6) + A.shape[4:])
        for m, (i, j) in enumerate(pairs):
            for n, (k, l) in enumerate(pairs):
                B[m, n] = A[i, j, k, l]
        return B
'''))
v("vo-asvoigt-ix", body(VO, "asvoigt", '''
    i = np.array([0, 1, 2, 0, 1, 0])
    j = np.array([0, 1, 2, 1, 2, 2])
    if mode == 2:
        return A[i, j]
    if mode == 4:
        return A[i[:, None], j[:, None], i[None, :], j[None, :]]
'''))
v("vo-astensor-take", body(VO, "astensor", '''
    a = np.array([[0, 3, 5], [3, 1, 4], [5, 4, 2]])
    if mode == 2:
        return np.take(A, a, axis=0)
    elif mode == 4:
        return A[a][:, :, a]
'''))
v("vo-astensor-ix", body(VO, "astensor", '''
    a = np.array([0, 3, 5, 3, 1, 4, 5, 4, 2])
    if mode == 2:
        return A[a].reshape(3, 3, *A.shape[1:])
    elif mode == 4:
        return A[np.ix_(a, a)].reshape((3, 3, 3, 3) + A.shape[2:])
'''))
v("vo-tri-loops", body(VO, "tril_from_triu", '''
    if out is None:
        out = np.array(A, copy=True)
    for i in range(dim):
        for j in range(i + 1, dim):
            out[j, i] = A[i, j]
    return out
'''), body(VO, "triu_from_tril", '''
    out = A.copy() if out is None else out
    idx = np.tril_indices(dim, k=-1)
    out[idx[::-1]] = A[idx]
    return out
'''))
v("vo-trace-sum", body(VO, "trace", "return A[0] + A[1] + A[2]"), body(VO, "transpose", "return A.swapaxes(0, 1)"))
v("vo-trace-einsum", body(VO, "trace", 'return np.einsum("i...->...", A[:3])'), body(VO, "transpose", 'return np.einsum("ij...->ji...", A)'))
v("vo-trace-method", body(VO, "trace", 'return A[:3].sum(axis=0)'), body(VO, "transpose", 'return np.moveaxis(A, 0, 1)'), body(VO, "dev", '''
    p = trace(A) / 3
    out = A - p * eye(A)
    return out
'''))
v("vo-dev-add-reduce", body(VO, "trace", 'return np.add.reduce(A[:3], axis=0)'), body(VO, "dev", '''
    B = np.array(A, dtype=float)
    B[:3] -= trace(A) / 3
    return B
'''))
v("vo-det-cofactor", body(VO, "det", '''
    a, b, c, d, e, f = A
    return a * (b * c - e * e) - d * (d * c - e * f) + f * (d * e - b * f)
'''))
v("vo-det-linalg", body(VO, "det", '''
    return np.linalg.det(np.moveaxis(astensor(A), (0, 1), (-2, -1)))
'''))
v("vo-inv-stack", body(VO, "inv", '''
    detA = det(A) if determinant is None else determinant
    a, b, c, d, e, f = A
    values = np.array([b * c - e**2, a * c - f**2, a * b - d**2, f * e - d * c, d * f - e * a, d * e - f * b])
    values = values / detA
    if out is None:
        return values
    out[...] = values
    return out
'''))
v("vo-inv-loop", body(VO, "inv", '''
    if determinant is None:
        determinant = det(A)
    i, j = [1, 0, 0, 4, 3, 3], [2, 2, 1, 5, 5, 4]
    k, l = [4, 5, 3, 3, 0, 1], [4, 5, 3, 2, 4, 5]
    result = np.zeros_like(A) if out is None else out
    B = A.copy()
    for m in range(6):
        result[m] = (B[i[m]] * B[j[m]] - B[k[m]] * B[l[m]]) / determinant
    return result
'''))
v("vo-inv-linalg", body(VO, "inv", '''
    B = asvoigt(np.linalg.inv(astensor(A).T).T)
    if out is not None:
        out[:] = B
        return out
    return B
'''))
v("vo-inv-divide", ("math/_voigt.py", "    return np.divide(*np.broadcast_arrays(detAinvA, detA), out=out)", "    out /= detA\n    return out"))
v("vo-dot-einsum", body(VO, "dot", '''
    if mode == (2, 2):
        C = np.einsum("ij...,jk...->ik...", astensor(A), astensor(B))
    return C
'''))
v("vo-dot-loop", body(VO, "dot", '''
    if mode == (2, 2):
        a = np.array([[0, 3, 5], [3, 1, 4], [5, 4, 2]])
        trax = np.broadcast_shapes(A.shape[1:], B.shape[1:])
        C = np.zeros((3, 3, *trax))
        for i in range(3):
            for j in range(3):
                for k in range(3):
                    C[i, j] += A[a[i, k]] * B[a[k, j]]
    return C
'''))
v("vo-dot-matmul", body(VO, "dot", '''
    if mode == (2, 2):
        C = np.moveaxis(np.moveaxis(astensor(A), [0, 1], [-2, -1]) @ np.moveaxis(astensor(B), [0, 1], [-2, -1]), [-2, -1], [0, 1])
    return C
'''))
v("vo-eye-assign", body(VO, "eye", '''
    shape = () if A is None else (1,) * (A.ndim - 1)
    out = np.zeros((6,) + shape)
    out[:3] = 1.0
    return out
'''))
v("vo-eye-expand", body(VO, "eye", '''
    I = np.concatenate([np.ones(3), np.zeros(3)])
    if A is not None:
        for _ in A.shape[1:]:
            I = I[..., np.newaxis]
    return I
'''))
v("vo-ddot-full", body(VO, "ddot", '''
    w = np.array([1.0, 1.0, 1.0, 2.0, 2.0, 2.0])
    subscripts = {
        (2, 2): "i...,i...,i->...",
        (4, 4): "ik...,kj...,k->ij...",
        (4, 2): "ij...,j...,j->i...",
        (2, 4): "i...,ij...,i->j...",
    }
    return np.einsum(subscripts[mode], A, B, w)
'''))
v("vo-ddot-diag", body(VO, "ddot", '''
    w = np.repeat([1, 2], 3)

    def weighted(T):
        return T * w.reshape(-1, *([1] * (T.ndim - 1)))

    if mode == (2, 2):
        return np.sum(weighted(A) * B, axis=0)
    elif mode == (4, 4):
        return np.einsum("ik...,kj...->ij...", A, weighted(B))
    elif mode == (4, 2):
        return np.einsum("ij...,j...->i...", A, weighted(B))
    elif mode == (2, 4):
        return np.einsum("i...,ij...->j...", weighted(A), B)
'''))
v("vo-ddot-split", body(VO, "ddot", '''
    if mode == (2, 2):
        return np.sum(A[:3] * B[:3], axis=0) + 2 * np.sum(A[3:] * B[3:], axis=0)
    elif mode == (4, 4):
        return np.einsum("ik...,kj...->ij...", A[:, :3], B[:3]) + 2 * np.einsum("ik...,kj...->ij...", A[:, 3:], B[3:])
    elif mode == (4, 2):
        return sum((1 if j < 3 else 2) * A[:, j] * B[j] for j in range(6))
    elif mode == (2, 4):
        return sum((1 if j < 3 else 2) * A[j] * B[j] for j in range(6))
'''))
v("vo-dya-einsum", body(VO, "dya", '''
    if out is None:
        return np.einsum("i...,j...->ij...", A, B)
    return np.einsum("i...,j...->ij...", A, B, out=out)
'''))
v("vo-dya-index", body(VO, "dya", '''
    C = A[:, None] * B[None]
    if out is not None:
        out[:] = C
        C = out
    return C
'''))
v("vo-cdya_ik-transpose", body(VO, "cdya_ik", '''
    C = astensor(dya(A, B, out=out), 4)
    return np.einsum("ijkl...->ikjl...", C)
'''), body(VO, "cdya_il", '''
    C = astensor(dya(A, B, out=out), 4)
    return C.transpose(0, 3, 2, 1, *range(4, C.ndim))
'''))
v("vo-cdya_ik-einsum", body(VO, "cdya_ik", '''
    return np.einsum("ik...,jl...->ijkl...", astensor(A), astensor(B))
'''))
v("vo-cdya-loop", body(VO, "cdya", '''
    b = np.array([0, 3, 5, 3, 1, 4, 5, 4, 2]).reshape(3, 3)
    a = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]
    if out is None:
        out = np.zeros((6, *np.broadcast_shapes(A.shape, B.shape)))
    for m, (i, j) in enumerate(a):
        for n, (k, l) in enumerate(a):
            out[m, n] = (
                A[b[i, k]] * B[b[j, l]] + A[b[i, l]] * B[b[k, j]]
                + B[b[i, k]] * A[b[j, l]] + B[b[i, l]] * A[b[k, j]]
            ) / 4
    return out
'''))
v("vo-cdya-full", body(VO, "cdya", '''
    X, Y = astensor(A), astensor(B)
    C = np.einsum("ik...,jl...->ijkl...", X, Y) + np.einsum("il...,kj...->ijkl...", X, Y)
    C = C + np.einsum("ik...,jl...->ijkl...", Y, X) + np.einsum("il...,kj...->ijkl...", Y, X)
    C = asvoigt(C / 4, mode=4)
    if out is None:
        return C
    out[...] = C
    return out
'''))
v("vo-cdya-symmetric", (VO, "    out[ij, kl] = out[kl, ij] = values\n", "    out[ij, kl] = values\n    out = triu_fill(out)\n"), (VO, "@top", '''def triu_fill(out):
    "Copy the upper triangle to the lower one."
    for m in range(6):
        for n in range(m):
            out[m, n] = out[n, m]
    return out'''))
v("vo-eigh-moveaxis", body(VO, "eigh", '''
    w, v = np.linalg.eigh(np.moveaxis(astensor(A), (0, 1), (-2, -1)))
    w = np.moveaxis(w, -1, 0)
    v = np.moveaxis(v, (-2, -1), (0, 1))
    M = np.array([asvoigt(np.einsum("i...,j...->ij...", v[:, a], v[:, a])) for a in range(3)])
    return w if fun is None else fun(w), M
'''))
v("vo-eigh-loop", body(VO, "eigh", '''
    wA, vA = np.linalg.eigh(astensor(A).T)
    bases = []
    for a in range(3):
        n = vA[..., a].T
        bases.append(np.stack([n[0] * n[0], n[1] * n[1], n[2] * n[2], n[0] * n[1], n[1] * n[2], n[0] * n[2]]))
    values = wA.T
    if fun is not None:
        values = fun(values)
    return values, np.stack(bases)
'''))
# ------------------------------------------------------------------ invariants framework
v("inv-helper", body(INV, "gradient", '''
    self.I = eye(C)
    self.I1, self.I2, self.I3 = _invariants(C)
    self.dWdI1, self.dWdI2, self.dWdI3, statevars_new = self.material.gradient(
        self.I1, self.I2, self.I3, statevars
    )
    terms = []
    if self.dWdI1 is not None:
        self.dI1dC = self.I
        terms.append(self.dWdI1 * self.dI1dC)
    if self.dWdI2 is not None:
        self.dI2dC = self.I1 * self.I - C
        terms.append(self.dWdI2 * self.dI2dC)
    if self.dWdI3 is not None:
        self.invC = inv(C, determinant=self.I3)
        self.dI3dC = self.I3 * self.invC
        terms.append(self.dWdI3 * self.dI3dC)
    dWdC = np.zeros((6,) + (1,) * (C.ndim - 1))
    for term in terms:
        dWdC = dWdC + term
    return dWdC, statevars_new
''', "Invariants"), (INV, "@top", '''def _invariants(C):
    "Return the principal invariants."
    I1 = trace(C)
    return I1, (I1**2 - ddot(C, C)) / 2, det(C)'''))
v("inv-reorder", (INV, '''        if self.dWdI1 is not None:
            self.dI1dC = I
            dWdC = dWdC + self.dWdI1 * self.dI1dC

        if self.dWdI2 is not None:
            self.dI2dC = I1 * I - C
            dWdC = dWdC + self.dWdI2 * self.dI2dC
''', '''        if self.dWdI2 is not None:
            self.dI2dC = self.I1 * I - C
            dWdC = self.dWdI2 * self.dI2dC + dWdC

        if self.dWdI1 is not None:
            self.dI1dC = I
            dWdC = self.dI1dC * self.dWdI1 + dWdC
'''))
v("inv-loop-hessian", body(INV, "hessian", '''
    dWdC, _ = self.gradient(C, statevars)
    second = self.material.hessian(self.I1, self.I2, self.I3, statevars)
    d2WdCdC = np.zeros((6, 6, *[1 for _ in C.shape[1:]]))
    if self.dWdI2 is not None:
        d2WdCdC = d2WdCdC + self.dWdI2 * (dya(self.I, self.I) - cdya(self.I, self.I))
    if self.dWdI3 is not None:
        d2WdCdC = d2WdCdC + self.dWdI3 * self.I3 * (dya(self.invC, self.invC) - cdya(self.invC, self.invC))
    names = ["dI1dC", "dI2dC", "dI3dC"]
    pairs = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]
    for (a, b), value in zip(pairs, second):
        if value is None:
            continue
        A, B = getattr(self, names[a]), getattr(self, names[b])
        D = dya(A, B)
        if a != b:
            D = D + dya(B, A)
        d2WdCdC = d2WdCdC + value * D
    return d2WdCdC
''', "Invariants"))
v("inv-i2-components", (INV, "self.I2 = (I1**2 - ddot(C, C)) / 2", "self.I2 = C[0] * C[1] + C[1] * C[2] + C[2] * C[0] - C[3] ** 2 - C[4] ** 2 - C[5] ** 2"))
v("inv-inplace", (INV, "            dWdC = dWdC + self.dWdI1 * self.dI1dC\n", "            dWdC = np.add(dWdC, np.multiply(self.dWdI1, self.dI1dC))\n"),
  (INV, "ntrax = len(C.shape[1:])\n        dWdC = np.zeros((6, *np.ones(ntrax, dtype=int)))", "ntrax = C.ndim - 1\n        dWdC = np.zeros([6] + [1] * ntrax)"))
v("inv-adjugate", (INV, '''            self.invC = invC = inv(C, determinant=self.I3)
            self.dI3dC = I3 * invC
''', '''            self.dI3dC = inv(C, determinant=np.ones_like(I3))
            self.invC = self.dI3dC / I3
'''))
v("inv-symmetrized", (INV, "d2WdI1dI2 * (dya(dI1dC, dI2dC) + dya(dI2dC, dI1dC))", "d2WdI1dI2 * self._sym(dI1dC, dI2dC)"),
  (INV, "    def gradient(self, C", '''    @staticmethod
    def _sym(A, B):
        AB = dya(A, B)
        return AB + np.swapaxes(AB, 0, 1)

    def gradient(self, C'''))
# ------------------------------------------------------------------ stretches framework
v("str-einsum", (STR, "np.sum(np.expand_dims(self.dWdλC, axis=1) * self.M, axis=0)", 'np.einsum("a...,ai...->i...", self.dWdλC, self.M)'))
v("str-loop", (STR, "dWdC = np.sum(np.expand_dims(self.dWdλC, axis=1) * self.M, axis=0)", "dWdC = np.zeros_like(C)\n        for a in range(3):\n            dWdC = dWdC + self.dWdλC[a] * self.M[a]"))
v("str-generator", (STR, "dWdC = np.sum(np.expand_dims(self.dWdλC, axis=1) * self.M, axis=0)", "dWdC = sum(w * M for w, M in zip(self.dWdλC, self.M))"))
v("str-where", (STR, '''                f[~mask] = (dWdλC[α][~mask] - dWdλC[β][~mask]) / v[~mask]
                f[mask] = d2WdλC2[β][mask] - d2WdλC2[m][mask]
''', '''                with np.errstate(divide="ignore", invalid="ignore"):
                    f = np.where(mask, d2WdλC2[β] - d2WdλC2[m], (dWdλC[α] - dWdλC[β]) / v)
'''))
v("str-where-safe", (STR, '''                f[~mask] = (dWdλC[α][~mask] - dWdλC[β][~mask]) / v[~mask]
                f[mask] = d2WdλC2[β][mask] - d2WdλC2[m][mask]
''', '''                safe = np.where(mask, 1.0, v)
                f = np.where(mask, d2WdλC2[β] - d2WdλC2[m], (dWdλC[α] - dWdλC[β]) / safe)
'''))
v("str-divide-where", (STR, '''                f[~mask] = (dWdλC[α][~mask] - dWdλC[β][~mask]) / v[~mask]
                f[mask] = d2WdλC2[β][mask] - d2WdλC2[m][mask]
''', '''                f = np.array(d2WdλC2[β] - d2WdλC2[m])
                np.divide(dWdλC[α] - dWdλC[β], v, out=f, where=~mask)
'''))
v("str-copyto", (STR, '''                f[~mask] = (dWdλC[α][~mask] - dWdλC[β][~mask]) / v[~mask]
                f[mask] = d2WdλC2[β][mask] - d2WdλC2[m][mask]
''', '''                keep = np.logical_not(mask)
                limit = d2WdλC2[β] - d2WdλC2[m]
                f = np.zeros_like(v)
                f[keep] = ((dWdλC[α] - dWdλC[β])[keep]) / (v[keep])
                np.copyto(f, limit, where=mask)
'''))
v("str-helper", (STR, '''                v = λ[α] ** 2 - λ[β] ** 2
                mask = np.isclose(v, 0)

                f[~mask] = (dWdλC[α][~mask] - dWdλC[β][~mask]) / v[~mask]
                f[mask] = d2WdλC2[β][mask] - d2WdλC2[m][mask]

                d2WdCdC += d2WdλC2[m] * transpose(M4) + f * 2 * cdya(M[α], M[β])
''', '''                f = self._ratio(λ[α], λ[β], dWdλC[α], dWdλC[β], d2WdλC2[β] - d2WdλC2[m])
                d2WdCdC += d2WdλC2[m] * transpose(M4)
                d2WdCdC += 2 * f * cdya(M[α], M[β])
'''), (STR, "    def gradient(self, C", '''    @staticmethod
    def _ratio(a, b, wa, wb, limit):
        "difference quotient with its limit for equal stretches"
        f = np.array(limit)
        distinct = ~np.isclose(a**2 - b**2, 0)
        f[distinct] = (wa[distinct] - wb[distinct]) / (a[distinct] ** 2 - b[distinct] ** 2)
        return f

    def gradient(self, C'''))
v("str-two-loops", (STR, '''        for m, (α, β) in enumerate(zip(a, b)):
            M4 = dya(M[α], M[β])
            d2WdCdC += d2WdλC2[m] * M4

            if β != α:
''', '''        for m in range(3):
            d2WdCdC += d2WdλC2[m] * dya(M[m], M[m])

        for m in (3, 4, 5):
            α, β = a[m], b[m]
            M4 = dya(M[α], M[β])
            d2WdCdC += d2WdλC2[m] * M4

            if True:
'''))
v("str-array-hessian", (STR, '''            newshape = self.λ[0].shape
            _d2Wdλdλ = np.zeros((6, *self.λ[0].shape))
            for a in range(6):
                if d2Wdλdλ[a] is not None:
                    _d2Wdλdλ[a] = np.broadcast_to(d2Wdλdλ[a], newshape)
            d2Wdλdλ = _d2Wdλdλ
''', '''            zero = np.zeros_like(self.λ[0])
            d2Wdλdλ = np.array([zero if d is None else zero + d for d in d2Wdλdλ])
'''))
v("str-factor", (STR, '''        d2WdλC2 = d2Wdλdλ / (4 * λ[a] * λ[b])
        d2WdλC2[:3] -= dWdλC / (2 * λ**2)
''', '''        d2WdλC2 = d2Wdλdλ / λ[a] / λ[b] / 4
        for α in range(3):
            d2WdλC2[α] = d2WdλC2[α] - dWdλC[α] / 2 / np.square(λ[α])
'''))
v("str-sqrt-after", (STR, '''        self.λ, self.M = eigh(C, fun=np.sqrt)
''', '''        λ2, self.M = eigh(C)
        self.λ = np.sqrt(λ2)
'''))
v("str-sqrt-lambda", (STR, "eigh(C, fun=np.sqrt)", "eigh(C, fun=lambda x: x**0.5)"))
v("str-λ2-mask", (STR, "mask = np.isclose(v, 0)", "mask = np.isclose(λ[α] ** 2 - λ[β] ** 2, 0.0)"))
v("str-abs-mask", (STR, "mask = np.isclose(v, 0)", "mask = np.abs(v) <= 1e-8"))
# ------------------------------------------------------------------ generalized invariants
v("gim-roll", (GIM, '''        Eβ = E[[1, 0, 0]]
        Eγ = E[[2, 2, 1]]
''', '''        Eβ = np.roll(E, -1, axis=0)
        Eγ = np.roll(E, -2, axis=0)
'''))
v("gim-sum", (GIM, "I1 = E[0] + E[1] + E[2]", "I1 = np.sum(E, axis=0)"), (GIM, "I3 = E[0] * E[1] * E[2]", "I3 = np.prod(E, axis=0)"),
  (GIM, "I2 = E[0] * E[1] + E[1] * E[2] + E[2] * E[0]", "I2 = (I1**2 - np.sum(E**2, axis=0)) / 2"))
v("gim-unpack", (GIM, '''        I1 = E[0] + E[1] + E[2]
        I2 = E[0] * E[1] + E[1] * E[2] + E[2] * E[0]
        I3 = E[0] * E[1] * E[2]
''', '''        Ea, Eb, Ec = E
        I1 = Ea + Eb + Ec
        I2 = Ea * Eb + Ec * (Ea + Eb)
        I3 = Ea * Eb * Ec
'''))
v("gim-loop-grad", (GIM, '''        if self.dWdI1 is not None:
            dWdλ += self.dWdI1 * self.dI1dE * self.dEdλ

        if self.dWdI2 is not None:
            dWdλ += self.dWdI2 * self.dI2dE * self.dEdλ

        if self.dWdI3 is not None:
            dWdλ += self.dWdI3 * self.dI3dE * self.dEdλ

        return dWdλ, statevars_new
''', '''        for dWdI, dIdE in (
            (self.dWdI1, self.dI1dE),
            (self.dWdI2, self.dI2dE),
            (self.dWdI3, self.dI3dE),
        ):
            if dWdI is None:
                continue
            dWdλ = dWdλ + dWdI * dIdE * self.dEdλ

        return dWdλ, statevars_new
'''))
v("gim-einsum", (GIM, '''        # in-place modification (avoid the creation of a new array)
        d2Wdλαdλβ = d2WdEαdEβ
        d2Wdλαdλβ *= dEdλ[α] * dEdλ[β]
''', '''        d2Wdλαdλβ = d2WdEαdEβ * dEdλ[α] * dEdλ[β]
'''))
v("gim-combine", (GIM, '''        if self.dWdI1 is not None:
            d2Wdλαdλβ[:3] += self.dWdI1 * dI1dE * d2Edλdλ

        if self.dWdI2 is not None:
            d2Wdλαdλβ[:3] += self.dWdI2 * dI2dE * d2Edλdλ

        if self.dWdI3 is not None:
            d2Wdλαdλβ[:3] += self.dWdI3 * dI3dE * d2Edλdλ
''', '''        dWdE = np.zeros_like(d2Edλdλ)
        for w, dI in [(self.dWdI1, dI1dE), (self.dWdI2, dI2dE), (self.dWdI3, dI3dE)]:
            if w is not None:
                dWdE += w * dI
        d2Wdλαdλβ[:3] += dWdE * d2Edλdλ
'''))
v("gim-norm-helper", (GIM, '''        # normalize invariants
        c1_upper = 3 / 2 * (d2Edλdλ0 + dEdλ0)
        c1_lower = 3 / 2 * (d2Edλdλ + dEdλ)

        c2_upper = 3 * (d2Edλdλ0 + dEdλ0) * E0 - 3 / 2 * dEdλ0**2
        c2_lower = 3 * (d2Edλdλ + dEdλ) * E - 3 / 2 * dEdλ**2

        self.c1 = c1_upper / c1_lower
        self.c2 = c2_upper / c2_lower
''', '''        def curvature(E, dE, d2E):
            return d2E + dE, 2 * (d2E + dE) * E - dE**2

        upper = curvature(E0, dEdλ0, d2Edλdλ0)
        lower = curvature(E, dEdλ, d2Edλdλ)

        self.c1 = upper[0] / lower[0]
        self.c2 = upper[1] / lower[1]
'''))
v("gim-i10", (GIM, "self.I1 = self.c1 * I1 - self.I10 * (self.c1 - 1)", "self.I1 = self.c1 * (I1 - self.I10) + self.I10"), (GIM, "self.I2 = self.c2 * I2 - self.I20 * (self.c2 - 1)", "self.I2 = self.I20 + (I2 - self.I20) * self.c2"))
# ------------------------------------------------------------------ measures
v("mea-nolambda", body(MEA, "strain", '''
    k = exponent

    def evaluate(x, n):
        return (x**n - 1) / n, x ** (n - 1), (n - 1) * x ** (n - 2)

    return (*evaluate(stretch, k), *evaluate(1, 2))
'''), body(MEA, "deformation", '''
    def evaluate(x, n):
        return [x**n, n * x ** (n - 1), n * (n - 1) * x ** (n - 2)]

    return tuple(evaluate(stretch, exponent) + evaluate(1, 2))
'''))
v("mea-division", body(MEA, "strain", '''
    k, x = exponent, stretch
    p = x**k
    return (p - 1) / k, p / x, (k - 1) * p / x**2, 0.0, 1.0, 1.0
'''))
v("mea-numpy", body(MEA, "deformation", '''
    import numpy as np
    k, x = exponent, np.asarray(stretch, dtype=float)
    return np.power(x, k), k * np.power(x, k - 1), k * (k - 1) * np.power(x, k - 2), 1, 2, 2
'''))
v("mea-exp", body(MEA, "strain", '''
    import numpy as np
    k, x = exponent, stretch
    p = np.exp(k * np.log(x))
    return (p - 1) / k, p / x, (k - 1) * p / x**2, 0, 1, 1
'''))
# ------------------------------------------------------------------ models
v("ogd-sum", body(OGD, "gradient", '''
    dWdλ = sum(2 * m / a * stretches ** (a - 1) for m, a in zip(self.mu, self.alpha))
    return dWdλ + np.zeros_like(stretches), statevars
''', "Ogden"))
v("ogd-power", (OGD, "dWdλα += 2 * mu / alpha * stretches ** (alpha - 1)", "dWdλα = dWdλα + (2 * mu / alpha) * np.power(stretches, alpha) / stretches"),
  (OGD, "return [*d2Wdλαdλα, None, None, None]", "return [d2Wdλαdλα[0], d2Wdλαdλα[1], d2Wdλαdλα[2], None, None, None]"))
v("ogd-range", (OGD, '''        for mu, alpha in zip(self.mu, self.alpha):
            d2Wdλαdλα += 2 * mu / alpha * (alpha - 1) * stretches ** (alpha - 2)
''', '''        for i in range(len(self.mu)):
            c = 2 * self.mu[i] * (1 - 1 / self.alpha[i])
            d2Wdλαdλα += c * stretches ** (self.alpha[i] - 2)
'''))
v("ogd-zeros", (OGD, "return [*d2Wdλαdλα, None, None, None]", "return np.concatenate([d2Wdλαdλα, np.zeros_like(d2Wdλαdλα)])"))
v("tod-plain", body(TOD, "gradient", '''
    x, y = I1 - self.undeformed, I2 - self.undeformed
    dWdI1 = self.C10 + self.C11 * y + 2 * self.C20 * x + 3 * self.C30 * x**2
    dWdI2 = self.C01 + self.C11 * x
    return dWdI1, dWdI2, None, statevars
''', "ThirdOrderDeformation"), body(TOD, "hessian", '''
    x = I1 - self.undeformed
    return 2 * self.C20 + 6 * self.C30 * x, None, None, self.C11, None, None
''', "ThirdOrderDeformation"))
v("tod-any", (TOD, '''        if self.C10 != 0 or self.C11 != 0 or self.C20 != 0 or self.C30 != 0:
            dWdI1 = 0

        if self.C01 != 0 or self.C11 != 0:
            dWdI2 = 0
''', '''        if any(c != 0 for c in (self.C10, self.C11, self.C20, self.C30)):
            dWdI1 = 0

        if not (self.C01 == 0 and self.C11 == 0):
            dWdI2 = 0
'''))
v("tod-truthy", (TOD, '''        if self.C10 != 0 or self.C11 != 0 or self.C20 != 0 or self.C30 != 0:
            dWdI1 = 0

        if self.C01 != 0 or self.C11 != 0:
            dWdI2 = 0
''', '''        if self.C10 or self.C11 or self.C20 or self.C30:
            dWdI1 = np.zeros_like(I1)

        if self.C01 or self.C11:
            dWdI2 = np.zeros_like(I2)
'''), (TOD, "@import", "import numpy as np"))
v("tod-horner", (TOD, '''        if self.C20 != 0:
            dWdI1 += self.C20 * 2 * (I1 - self.undeformed)

        if self.C30 != 0:
            dWdI1 += self.C30 * 3 * (I1 - self.undeformed) ** 2
''', '''        if self.C20 != 0 or self.C30 != 0:
            J1 = I1 - self.undeformed
            dWdI1 = dWdI1 + J1 * (2 * self.C20 + 3 * self.C30 * J1)
'''))
v("tod-polyval", (TOD, '''        if self.C20 != 0:
            dWdI1 += self.C20 * 2 * (I1 - self.undeformed)

        if self.C30 != 0:
            dWdI1 += self.C30 * 3 * (I1 - self.undeformed) ** 2
''', '''        if self.C20 != 0 or self.C30 != 0:
            import numpy as np

            dWdI1 = dWdI1 + np.polyval([3 * self.C30, 2 * self.C20, 0], I1 - self.undeformed)
'''))
v("tor-loop", (TOR, '''        return [
            self._grad(f, x, numpy=numpy, retain_graph=True)
            for f, x in zip(
                [dWdI1, dWdI2, dWdI3, dWdI1, dWdI2, dWdI1], [I1, I2, I3, I2, I3, I3]
            )
        ]
''', '''        first = [dWdI1, dWdI2, dWdI3]
        invariants = [I1, I2, I3]
        out = []
        for a, b in [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]:
            out.append(self._grad(first[a], invariants[b], numpy=numpy, retain_graph=True))
        return out
'''))
v("tor-once", (TOR, "return (*[self._grad(f, x, **kwargs) for x in [I1, I2, I3]], statevars)", "dWdI1, dWdI2, dWdI3 = (self._grad(f, x, **kwargs) for x in (I1, I2, I3))\n\n        return dWdI1, dWdI2, dWdI3, statevars"),
  (TOR, '''        tensors = [torch.tensor(arg, dtype=dtype) for arg in args]
        [tensor.requires_grad_(True) for tensor in tensors]
        return tensors
''', '''        return [torch.tensor(arg, dtype=dtype, requires_grad=True) for arg in args]
'''))
v("tor-sum", (TOR, "fun.sum(), x, allow", "torch.sum(fun), x, allow"))
v("tor-seed", (TOR, "fun.sum(), x, allow_unused=allow_unused, **kwargs", "fun, x, grad_outputs=torch.ones_like(fun), allow_unused=allow_unused, **kwargs"))
# ------------------------------------------------------------------ spaces
CFG = 'asvoigt(self.einsum("kI...,kJ...->IJ...", F, F))'
v("sp-rcg", (SP, "    def piola(", '''    def _right_cauchy_green(self, F):
        "Return the right Cauchy-Green deformation tensor."
        FTF = self.einsum("kI...,kJ...->IJ...", F, F)
        return asvoigt(FTF)

    def piola('''), *[(f, CFG, "self._right_cauchy_green(F)") for f in (SP, DEF, DIS, DIL)])
v("sp-npeinsum", *[(f, CFG, 'asvoigt(np.einsum("ki...,kj...->ij...", F, F))') for f in (SP, DIS, DIL)])
v("sp-matmul", (DIS, CFG, "asvoigt(np.moveaxis(np.moveaxis(F, [0, 1], [-1, -2]) @ np.moveaxis(F, [0, 1], [-2, -1]), [-2, -1], [0, 1]))"))
v("sp-detF", (SP, '''                    if detF is None:
                        C = asvoigt(self.einsum("kI...,kJ...->IJ...", F, F))
                        I3 = det(C)
                        detF = np.sqrt(I3)

                    stress''', '''                    if detF is None:
                        detF = np.linalg.det(np.moveaxis(F, [0, 1], [-2, -1]))

                    stress'''))
v("sp-noout", (SP, 'stress = self.einsum("iI...,IJ...->iJ...", F, stress, out=stress)', 'stress = self.einsum("iI...,IJ...->iJ...", F, stress)'),
  (SP, '"iI...,kK...,IJKL...->iJkL...", F, F, elasticity, out=elasticity', '"iI...,kK...,IJKL...->iJkL...", F, F, elasticity'))
v("sp-twosteps", (SP, '''                    elasticity = self.einsum(
                        "iI...,kK...,IJKL...->iJkL...", F, F, elasticity, out=elasticity
                    )
''', '''                    elasticity = self.einsum("iI...,IJKL...->iJKL...", F, elasticity)
                    elasticity = self.einsum("kK...,iJKL...->iJkL...", F, elasticity)
'''))
v("sp-notinplace", (SP, "elasticity += cdya_ik(eye(S), S)", "elasticity = elasticity + cdya_ik(eye(S), S)"), (SP, "elasticity += cdya_ik(invC, S)", "elasticity = elasticity + cdya_ik(invC, S)"))
v("sp-shape", (SP, "if not np.allclose(new_shape, stress.shape):", "if new_shape != stress.shape:"), (SP, "if not np.allclose(new_shape, elasticity.shape):", "if tuple(new_shape) != tuple(elasticity.shape):"))
v("sp-alwayscopy", (SP, '''                if not np.allclose(new_shape, stress.shape):
                    # broadcast stress and make a writable contiguous copy
                    stress = np.broadcast_to(stress, new_shape).copy()
''', '''                stress = np.array(np.broadcast_to(stress, new_shape))
'''))
v("sp-early", (SP, '''        if C4 is None:
            stress = S
''', '''        if C4 is None and not self.finalize:
            return S

        if C4 is None:
            stress = S
'''))
v("sp-split", (SP, "    def piola(self, F, S, detF=None, C4=None, invC=None):", "    def piola(self, F, S, detF=None, C4=None, invC=None):\n        return self._piola(F, S, detF, C4, invC)\n\n    def _piola(self, F, S, detF=None, C4=None, invC=None):"))
v("dis-cbrt", (DIS, "self.Cu = I3 ** (-1 / 3) * C", "self.Cu = C / np.cbrt(I3)"))
v("dis-power", (DIS, "self.Cu = I3 ** (-1 / 3) * C", "self.Cu = np.power(I3, -1 / 3) * C"), (DIS, "self.Sb = Sb = 2 * I3 ** (-1 / 3) * dWudCu", "J = np.sqrt(I3)\n        self.Sb = Sb = 2 * J ** (-2 / 3) * dWudCu"))
v("dis-dev", (DIS, "self.S = Sb - SbC / 3 * invC", "self.S = Sb - np.einsum(\"...,i...->i...\", SbC / 3, invC)"))
v("dis-projection", (DIS, '''        if np.any(C4b):
            C4 += ddot(ddot(P4, C4b, mode=(4, 4)), transpose(P4), mode=(4, 4))
''', '''        C4 = C4 + ddot(ddot(P4, C4b, mode=(4, 4)), transpose(P4), mode=(4, 4))
'''))
v("dis-nonzero", (DIS, "if np.any(C4b):", "if not np.all(C4b == 0):"), (DIS, "C4 += ddot(ddot", "C4 = C4 + ddot(ddot"))
v("dis-count", (DIS, "if np.any(C4b):", "if np.count_nonzero(C4b) > 0:"))
v("dis-expand", (DIS, "C4 = 2 / 3 * (self.SbC * I4 - SbinvC - invCSb + self.SbC / 3 * invCinvC)", "C4 = 2 / 3 * self.SbC * (I4 + invCinvC / 3)\n        C4 = C4 - 2 / 3 * (SbinvC + invCSb)"))
v("dis-invC", (DIS, "self.invC = invC = inv(C, determinant=I3)", "self.invC = invC = inv(C)"))
v("dil-cbrt", (DIL, "self.Co = self.I3 ** (1 / 3) * eye(self.C)", "J23 = np.cbrt(self.I3)\n        self.Co = eye(self.C) * J23"), (DIL, "self.Sb = 2 * self.I3 ** (1 / 3) * dWodCo", "self.Sb = 2 * J23 * dWodCo"))
v("dil-trace", (DIL, "tr_C4b = ddot(ddot(I, C4b, mode=(2, 4)), I)", "tr_C4b = C4b[:3, :3].sum(axis=(0, 1))"), (DIL, "self.tr_Sb = trace(self.Sb)", "self.tr_Sb = ddot(eye(self.Sb), self.Sb)"))
v("dil-factor", (DIL, '''        C4 = (2 * self.tr_Sb + tr_C4b) * dya(
            self.invC, self.invC
        ) / 9 - 2 / 3 * self.tr_Sb * I4
''', '''        invCinvC = dya(self.invC, self.invC)
        C4 = tr_C4b / 9 * invCinvC + 2 * self.tr_Sb / 3 * (invCinvC / 3 - I4)
'''))
v("def-locals", (DEF, '''        dWdF, statevars_new = self.gradient(x)
        d2WdCdC = self.material.hessian(self.C, statevars)

        return [self.piola(F=F, S=self.S, C4=4 * d2WdCdC)]
''', '''        C = asvoigt(self.einsum("kI...,kJ...->IJ...", F, F))
        dWdC, _ = self.material.gradient(C, statevars)
        d2WdCdC = self.material.hessian(C, statevars)
        C4 = 4 * d2WdCdC
        S = dWdC * 2

        return [self.piola(F, S, C4=C4)]
'''))
# ------------------------------------------------------------------ lab
LC, EX, SIM, OPT, CF, PL = "lab/_load_case.py", "lab/_experiment.py", "lab/_simulation.py", "lab/_optimize.py", "lab/_curve_fit.py", "lab/_plotting.py"
for f in (LC, EX, SIM, OPT, CF, PL):
    PROPS[f] = LABP
v("lc-diag", body(LC, "defgrad", '''
    return self._diagonal(stretch, 1 / np.sqrt(stretch), 1 / np.sqrt(stretch))
''', "Uniaxial"), (LC, "    def stress(self, F, P", '''    @staticmethod
    def _diagonal(*values):
        F = np.zeros((3, 3) + np.shape(values[0]))
        for i, value in enumerate(values):
            F[i, i] = value
        return F

    def stress(self, F, P'''), body(LC, "defgrad", "return self._diagonal(stretch, stretch, stretch ** (-2.0))", "Biaxial"), body(LC, "defgrad", "return self._diagonal(stretch, np.ones_like(stretch), 1 / stretch)", "Planar"))
v("lc-power", (LC, "y = 1 / np.sqrt(stretch)", "y = stretch ** (-0.5)"), (LC, "y = 1 / stretch**2", "y = np.square(1 / stretch)"), (LC, "y = 1 / stretch\n", "y = stretch ** -1.0\n"))
v("lc-einsum", body(LC, "defgrad", '''
    values = np.array([stretch, stretch**-0.5, stretch**-0.5])
    return np.einsum("ij,i...->ij...", np.eye(3), values)
''', "Uniaxial"))
v("lc-stress", (LC, "return P[i, i] - P[j, j] * F[j, j] / F[i, i]", "ratio = F[j, j] / F[i, i]\n        pressure = P[j, j] * ratio\n\n        return P[i, i] - pressure"))
v("lc-cauchy", (LC, "return P[i, i] - P[j, j] * F[j, j] / F[i, i]", "return (P[i, i] * F[i, i] - P[j, j] * F[j, j]) / F[i, i]"))
v("ex-property", (EX, "self.stretch = 1 + np.asarray(self.displacement) / self.length", "self.stretch = (np.asarray(self.displacement) + self.length) / self.length"), (EX, "return np.asarray(self.force) / self.area", "return np.array(self.force) / self.area"))
v("sim-dict", (SIM, "kwargs = {label: p for label, p in zip(self.labels, parameters)}", "kwargs = dict(zip(self.labels, parameters))"), (SIM, "P = mat.gradient([F.reshape(3, 3, 1, -1), None])[0].reshape(3, 3, -1)", "P, *_ = mat.gradient([F[:, :, np.newaxis, :], None])\n        P = P[:, :, 0]"))
v("sim-helper", (SIM, "    def stress(self):", '''    def _stress(self, parameters):
        return self.stress_curve_fit(self.stretch, *parameters)

    def stress(self):'''), (SIM, "return self.stress_curve_fit(self.stretch, *self.parameters)", "return self._stress(self.parameters)"))
v("opt-loop", (OPT, '''        self.x = [
            experiment.stretch[mask]
            for mask, experiment in zip(self.mask, self.experiments)
        ]
        self.y = [
            experiment.stress()[mask]
            for mask, experiment in zip(self.mask, self.experiments)
        ]
''', '''        self.x, self.y = [], []
        for mask, experiment in zip(self.mask, self.experiments):
            self.x.append(experiment.stretch[mask])
            self.y.append(experiment.stress()[mask])
'''))
v("opt-residual", (OPT, "    def mean_relative_std(self):", '''    def _evaluate(self, parameters):
        return np.concatenate([fi(xi, *parameters) for fi, xi in zip(self.f, self.x)])

    def mean_relative_std(self):'''), (OPT, "fopt = np.concatenate([fi(xi, *popt) for fi, xi in zip(self.f, self.x)])", "fopt = self._evaluate(popt)"), (OPT, '''        f0 = np.concatenate(
            [fi(xi, *self.parameters) for fi, xi in zip(self.f, self.x)]
        )
''', '''        f0 = self._evaluate(self.parameters)
'''))
v("opt-norm", (OPT, "return np.linalg.norm(self.residuals)", "return np.sqrt(np.sum(self.residuals**2))"), (OPT, "np.sqrt(np.diag(pcov))", "np.diagonal(pcov) ** 0.5"), (OPT, "np.ones_like(self.parameters) * np.nan", "np.full(len(self.parameters), np.nan)"))
v("opt-norm-dot", (OPT, "return np.linalg.norm(self.residuals)", "return np.sqrt(self.residuals @ self.residuals)"), (OPT, "np.mean(self.errors / np.abs(self.parameters)) * 100", "100 * (self.errors / abs(self.parameters)).mean()"))
v("opt-hstack", (OPT, "self.residuals[:] = fopt - np.concatenate(self.y)", "self.residuals[:] = np.subtract(fopt, np.hstack(self.y))"))
v("opt-order", (OPT, '''        self.parameters[:] = popt
        self.errors[:] = np.sqrt(np.diag(pcov))
        self.residuals[:] = fopt - np.concatenate(self.y)
''', '''        self.errors = np.sqrt(np.diag(pcov))
        self.residuals = fopt - np.concatenate(self.y)
        self.parameters[...] = popt
'''))
v("cf-import", (CF, "from scipy.optimize import curve_fit", "import scipy.optimize"), (CF, "@wraps(curve_fit)", "@wraps(scipy.optimize.curve_fit)"), (CF, "return curve_fit(", "return scipy.optimize.curve_fit("))
v("cf-as", (CF, "from scipy.optimize import curve_fit", "from scipy import optimize"), (CF, "@wraps(curve_fit)", "@wraps(optimize.curve_fit)"), (CF, "return curve_fit(", "fit = optimize.curve_fit\n    return fit("))
v("cf-hstack", (CF, "return np.concatenate([fi(xi, *p) for fi, xi in zip(f, xdata)])", "values = []\n        for i in range(len(f)):\n            values.append(f[i](xdata[i], *p))\n        return np.hstack(values)"))
v("pl-helper", (PL, '''        if ax is None:
            fig, ax = plt.subplots()
        else:
            fig = ax.get_figure()

        if label is None:
            label = self.label

        ax.plot(self.displacement, self.force, *args, label=label, **kwargs)
        ax.set_xlabel(xlabel)
        ax.set_ylabel(ylabel)

        return fig, ax
''', '''        return self._draw(self.displacement, self.force, xlabel, ylabel, ax, label, *args, **kwargs)

    def _draw(self, x, y, xlabel, ylabel, ax, label, *args, **kwargs):
        fig = None if ax is None else ax.figure
        if ax is None:
            fig, ax = plt.subplots()
        label = self.label if label is None else label
        ax.plot(x, y, *args, label=label, **kwargs)
        ax.set(xlabel=xlabel, ylabel=ylabel)
        return fig, ax
'''))
v("pl-figure", (PL, "fig, ax = plt.subplots()", "fig = plt.figure()\n            ax = fig.add_subplot()"), (OPT, "fig, ax = plt.subplots()", "fig = plt.figure()\n        ax = fig.gca()"))
v("pl-import", (PL, "import matplotlib.pyplot as plt", "from matplotlib.pyplot import subplots"), (PL, "plt.subplots()", "subplots()"))
v("pl-mpl", (PL, "import matplotlib.pyplot as plt", "from matplotlib import pyplot"), (PL, "plt.subplots()", "pyplot.subplots()"), (PL, "ax.get_figure()", "ax.figure"))
v("pl-set", (OPT, "            ax.set_title(title)", "            ax.set(title=title)"), (OPT, "        text = \"\\n\".join(\n            [", "        text = \"\\n\".join(\n            line for line in ["), (PL, """        ax.set_xlabel(xlabel)
        ax.set_ylabel(ylabel)
""", """        for setter, text in ((ax.set_xlabel, xlabel), (ax.set_ylabel, ylabel)):
            setter(text)
"""))
v("vo-imports", (VO, "import numpy as np", "import functools\nimport itertools\nfrom dataclasses import dataclass\nfrom typing import Optional\n\nimport numpy as np\nfrom numpy.linalg import eigh as _eigh"), (VO, "np.linalg.eigh(", "_eigh("), body(VO, "trace", "return functools.reduce(lambda a, b: a + b, itertools.islice(A, 3))"))
v("vo-cached-index", (VO, "import numpy as np", "from functools import lru_cache\n\nimport numpy as np"), (VO, "\ndef det(", '''
@lru_cache(maxsize=None)
def _pairs():
    return tuple(zip((0, 1, 2, 0, 1, 0), (0, 1, 2, 1, 2, 2)))


def det('''), body(VO, "asvoigt", '''
    pairs = _pairs()
    if mode == 2:
        return np.array([A[i, j] for i, j in pairs])
    if mode == 4:
        return np.array([[A[i, j, k, l] for k, l in pairs] for i, j in pairs])
'''))
