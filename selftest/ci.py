"""Edits of cqcpy/ci_utils.py."""
F = 'ci_utils.py'
CASES = []


def bug(checks, old, new, n=0):
    CASES.append((checks, 'bug', F, (old, new, n)))


def same(checks, *edits):
    CASES.append((checks, 'same', F, list(edits)))


# ---- C24
bug('C24', "otemp = self.occ[i+1:a]", "otemp = self.occ[i:a]")
bug('C24', "otemp = self.occ[a+1:i]", "otemp = self.occ[a+1:i+1]")
bug('C24', "sign = 1 if otemp.sum() % 2 == 0 else -1", "sign = -1 if otemp.sum() % 2 == 0 else 1", 1)
bug('C24', "            occnew = self.occ.copy()\n", "            occnew = self.occ\n", 1)
bug('C24', "        if i != a and self.occ[a] != 0:", "        if self.occ[a] != 0:")
bug('C24', "return numpy.array_equal(self.occ, other.occ) and self.n == other.n", "return self.occ.sum() == other.occ.sum() and self.n == other.n")
bug('C24', "            occnew[a] = 1\n            otemp = self.occ[a+1:i]", "            occnew[a] = 1\n            otemp = occnew[a:i]")
same('C24', ("otemp = self.occ[i+1:a]", "otemp = occnew[i+1:a]"))
same('C24', ("""        elif i < a:
            occnew = self.occ.copy()
            occnew[i] = 0
            occnew[a] = 1
            otemp = self.occ[i+1:a]
            sign = 1 if otemp.sum() % 2 == 0 else -1
            return (sign, Dstring(self.n, occnew))
        elif i > a:
            occnew = self.occ.copy()
            occnew[i] = 0
            occnew[a] = 1
            otemp = self.occ[a+1:i]
            sign = 1 if otemp.sum() % 2 == 0 else -1
            return (sign, Dstring(self.n, occnew))
""", """        lo, hi = min(i, a), max(i, a)
        occnew = numpy.array(self.occ)
        occnew[a] = 1
        occnew[i] = 0
        sign = (-1)**int(self.occ[lo+1:hi].sum())
        return (sign, Dstring(self.n, occnew))
"""))
same('C24', ("sign = 1 if otemp.sum() % 2 == 0 else -1", "sign = 1 - 2*(otemp.sum() % 2)"))
same('C24', ("sign = 1 if otemp.sum() % 2 == 0 else -1", "sign = 1\n            for x in otemp:\n                if x == 1:\n                    sign = -sign"))
same('C24', ("    def excite(self, i, a):\n", "    def _moved(self, i, a):\n        new = self.occ.copy()\n        new[i] = 0\n        new[a] = 1\n        return Dstring(self.n, new)\n\n    def excite(self, i, a):\n"),
     ("            occnew = self.occ.copy()\n            occnew[i] = 0\n            occnew[a] = 1\n            otemp = self.occ[i+1:a]\n            sign = 1 if otemp.sum() % 2 == 0 else -1\n            return (sign, Dstring(self.n, occnew))",
      "            otemp = self.occ[i+1:a]\n            sign = 1 if otemp.sum() % 2 == 0 else -1\n            return (sign, self._moved(i, a))"))
same('C24 C27', ("    diff = [abs(o1 - o2) for o1, o2 in zip(ref.occ, string.occ)]\n    return numpy.array(diff, dtype=int).sum()", "    return int(abs(ref.occ - string.occ).sum())"))
same('C24 C27', ("    diff = [abs(o1 - o2) for o1, o2 in zip(ref.occ, string.occ)]\n    return numpy.array(diff, dtype=int).sum()", "    return sum(abs(o1 - o2) for o1, o2 in zip(ref.occ, string.occ))"))

# ---- C25 / C26
bug('C25', "                if j <= i:\n", "                if j < i:\n")
bug('C25', "                    if b <= a:\n", "                    if b == a:\n", 1)
bug('C25', "        occ = [1 if i < nocc else 0 for i in range(n)]\n", "        occ = [1 if i <= nocc else 0 for i in range(n)]\n", 2)
bug('C25', "for l in iocc:\n                                if l <= k:", "for l in iocc:\n                                if l <= j:")
bug('C25 C26', "                    dlist.append(d2)", "                    dlist.append(d1)")
bug('C25', "                        if k <= j:\n                            continue\n                        for c in ivir:\n                            if c <= b:\n                                continue\n                            s1", "                        if k <= j:\n                            continue\n                        for c in ivir:\n                            if c <= a:\n                                continue\n                            s1")
bug('C26', "    for a in da:\n        for b in sb:\n            basis.append((a, b))\n", "    for a in da:\n        for b in sb:\n            basis.append((b, a))\n")
bug('C26', "    for a in sa:\n        for b in db:\n            basis.append((a, b))\n    for a in qa:", "    for a in qa:")
bug('C26', "    db = d_strings(n, nb)\n", "    db = d_strings(n, na)\n", 1)
bug('C26', "    for a in ta:\n        for b in sb:\n            basis.append((a, b))\n", "    for a in ta:\n        for b in tb:\n            basis.append((a, b))\n")
bug('C26', "    na = n - n//2\n", "    na = n//2\n", 1)
bug('C26', "    triples = t_strings(nmo, n, occ=occ)\n", "    triples = t_strings(nmo, n)\n", 1)
bug('C26', "    basis = [ref] if gs else []\n", "    basis = [ref]\n")
same('C25 C26', ("    for i in iocc:\n        for a in ivir:\n            sign, occnew = ref.excite(i, a)\n            dlist.append(occnew)\n    return dlist", "    return [ref.excite(i, a)[1] for i in iocc for a in ivir]"))
same('C25 C26', ("            for j in iocc:\n                if j <= i:\n                    continue\n                for b in ivir:\n                    if b <= a:\n                        continue\n                    s1, d1 = ref.excite(i, a)\n                    s2, d2 = d1.excite(j, b)\n                    dlist.append(d2)",
 "            s1, d1 = ref.excite(i, a)\n            for j in iocc:\n                for b in ivir:\n                    if j > i and b > a:\n                        s2, d2 = d1.excite(j, b)\n                        dlist.append(d2)"))
same('C25 C26', ("    for i in iocc:\n        for a in ivir:\n            for j in iocc:\n                if j <= i:\n                    continue\n                for b in ivir:\n                    if b <= a:\n                        continue\n                    s1, d1",
 "    for ii, i in enumerate(iocc):\n        for ia, a in enumerate(ivir):\n            for j in iocc[ii+1:]:\n                for b in ivir[ia+1:]:\n                    s1, d1"))
same('C25 C26', ("    vir = [1 if x == 0 else 0 for x in occ]\n    iocc = [i for i, x in enumerate(occ) if x > 0]\n    ivir = [i for i, x in enumerate(vir) if x > 0]\n", "    iocc = [p for p in range(n) if occ[p] == 1]\n    ivir = [p for p in range(n) if occ[p] == 0]\n"))
same('C25 C26', ("    vir = [1 if x == 0 else 0 for x in occ]\n    iocc = [i for i, x in enumerate(occ) if x > 0]\n    ivir = [i for i, x in enumerate(vir) if x > 0]\n", "    iocc, ivir = [], []\n    for p, x in enumerate(occ):\n        if x > 0:\n            iocc.append(p)\n        else:\n            ivir.append(p)\n"))
same('C25 C26', ("    vir = [1 if x == 0 else 0 for x in occ]\n    iocc = [i for i, x in enumerate(occ) if x > 0]\n    ivir = [i for i, x in enumerate(vir) if x > 0]\n    ref = Dstring(n, occ)\n    dlist = []\n    for i in iocc:\n        for a in ivir:\n            sign", "    iocc, ivir = _split(occ)\n    ref = Dstring(n, occ)\n    dlist = []\n    for i in iocc:\n        for a in ivir:\n            sign"),
 ("def s_strings(", "def _split(occ):\n    iocc = [i for i, x in enumerate(occ) if x > 0]\n    ivir = [i for i, x in enumerate(occ) if x == 0]\n    return iocc, ivir\n\n\ndef s_strings("))
same('C25 C26', ("        occ = [1 if i < nocc else 0 for i in range(n)]\n", "        occ = [1]*nocc + [0]*(n - nocc)\n"))
same('C26', ("    basis = [(refa, refb)]\n    for a in sa:\n        basis.append((a, refb))\n    for b in sb:\n        basis.append((refa, b))\n    for a in da:\n        basis.append((a, refb))\n    for b in db:\n        basis.append((refa, b))\n    for a in sa:\n        for b in sb:\n            basis.append((a, b))\n    return basis",
 "    basis = [(refa, refb)]\n    basis += [(a, refb) for a in sa + da]\n    basis.extend((refa, b) for b in sb)\n    basis.extend([(refa, b) for b in db])\n    basis += [(a, b) for a in sa for b in sb]\n    return basis"))
same('C26', ("    basis = [ref]\n    for s in singles:\n        basis.append(s)\n    for d in doubles:\n        basis.append(d)\n    return basis", "    return [ref] + singles + doubles"))
same('C26', ("    nb = n//2\n    na = n - n//2\n    occa = [1 if i < na else 0 for i in range(nmo//2)]\n    occb = [1 if i < nb else 0 for i in range(nmo//2)]\n    occ = occa + occb\n", "    occ = _gref(nmo, n)\n"), ("def gcis_basis", "def _gref(nmo, n):\n    nb = n//2\n    na = n - nb\n    occa = [1 if i < na else 0 for i in range(nmo//2)]\n    occb = [1 if i < nb else 0 for i in range(nmo//2)]\n    return occa + occb\n\n\ndef gcis_basis"))

# ---- C27
bug('C27', "Hel -= numpy.einsum('ii,i->', I[v, :, :, o], p)", "Hel -= numpy.einsum('ii,i->', I[:, v, :, o], p)")
bug('C27', "Eb -= 0.5*numpy.einsum('ijji,i,j->', Ib, pb, pb)", "Eb -= 0.5*numpy.einsum('ijji,i,j->', Ib, pa, pb)")
bug('C27', "Hel += numpy.einsum('ii,i->', Iabab[:, v, :, o], pa)", "Hel += numpy.einsum('ii,i->', Iabab[v, :, o, :], pa)")
bug('C27', "signb = 1.0 if bb[i1b+1:i2b]", "signb = 1.0 if bb[i1b:i2b]")
same('C27', ("        pa = keta.occ.copy()\n        pb = ketb.occ.copy()\n        ba = braa", "        pa = braa.occ.copy()\n        pb = ketb.occ.copy()\n        ba = braa"))
bug('C27', "sign = -sign1*sign2 if (v2 < o1 or o2 < v1) else sign1*sign2", "sign = -sign1*sign2 if v2 < o1 else sign1*sign2", 1)
bug('C27', "sign = -sign1*sign2 if (v2 < o1 or o2 < v1) else sign1*sign2", "sign = -sign1*sign2 if (v2 < o1 or o2 < v1) else sign1*sign2\n        o1, o2 = o2, o1", 2)
bug('C27', "        return Hel + const\n", "        return Hel\n")
bug('C27', "        Hel = Iabab[va, vb, oa, ob]\n", "        Hel = Iabab[va, vb, oa, ob] - Iabab[va, vb, ob, oa]\n")
same('C27', ("        p = ket.occ.copy()\n        b = bra.occ.copy()\n        i1 = min(o, v)\n        i2 = max(o, v)\n        sign = 1.0 if b[i1+1:i2].sum() % 2 == 0 else -1.0\n", "        p = ket.occ\n        sign = _sign(bra.occ, o, v)\n"),
     ("def gci_matrixel", "def _sign(occ, o, v):\n    lo, hi = min(o, v), max(o, v)\n    return 1.0 if occ[lo+1:hi].sum() % 2 == 0 else -1.0\n\n\ndef gci_matrixel"))
same('C27', ("        Hel = 0.0\n        Hel += h[v, o]\n        Hel += numpy.einsum('ii,i->', I[v, :, o, :], p)\n        Hel -= numpy.einsum('ii,i->', I[v, :, :, o], p)\n        return sign*Hel", "        Hel = h[v, o] + numpy.einsum('i,ii->', p, I[v, :, o, :] - I[v, :, :, o])\n        return sign*Hel"))
same('C27', ("        Hel += 0.5*numpy.einsum('ijij,i,j->', I, p, p)\n        Hel -= 0.5*numpy.einsum('ijji,i,j->', I, p, p)\n", "        Ianti = I - I.transpose((0, 1, 3, 2))\n        Hel += 0.5*numpy.einsum('ijij,i,j->', Ianti, p, p)\n"))
same('C27', ("        sign = 1.0 if ba[i1+1:i2].sum() % 2 == 0 else -1.0\n        Hel = 0.0\n", "        nbetween = ba[i1+1:i2].sum()\n        sign = (-1.0)**nbetween\n        Hel = 0.0\n"))
same('C27', ("    ddd = diff(bra, ket)//2\n    aa = [(ob - ok) for ob, ok in zip(bra.occ, ket.occ)]\n    ao = [-1 if a < 0 else 0 for a in aa]\n    av = [1 if a > 0 else 0 for a in aa]\n", "    ddd = diff(bra, ket)//2\n    aa = bra.occ - ket.occ\n    ao = aa < 0\n    av = aa > 0\n"))
same('C27', ("        Eab = numpy.einsum('ijij,i,j', Iabab, pa, pb)\n        Hel = Ea + Eb + Eab\n\n        return Hel + const\n", "        return const + Ea + Eb + numpy.einsum('ijij,i,j->', Iabab, pa, pb)\n"))

# ---- C28
bug('C28', 'out[idx] += s1*s2*x', 'out[idx] += s1*x')
bug('C28', 'idx = basis.index((anew, bb))', 'idx = basis.index((ab, bb))')
bug('C28', 'out[i] += vec[j]*gci_matrixel(b, k, h, I, 0.0)', 'out[j] += vec[i]*gci_matrixel(b, k, h, I, 0.0)')
bug('C28', 'b[0], b[1], k[0], k[1], ha, hb, Ia, Ib, Iabab, 0.0)', 'b[0], b[1], k[0], k[1], ha, hb, Ib, Ia, Iabab, 0.0)')
bug('C28', 'b[0], b[1], k[0], k[1], ha, hb, Ia, Ib, Iabab, 0.0)', 'b[0], k[1], k[0], b[1], ha, hb, Ia, Ib, Iabab, 0.0)')
bug('C28', 's2, bnew = btemp.excite(j, b)', 's2, bnew = btemp.excite(i, b)')
bug('C28', 's2, bnew = btemp.excite(j, b)', 's2, bnew = bb.excite(j, b)')
bug('C28', '''        try:
            idx = basis.index((anew, bnew))
            out[idx] += sa*sb*x
        except ValueError:
            pass''', '''        idx = basis.index((anew, bnew))
        out[idx] += sa*sb*x''')
bug('C14', "def s_on_vec(basis, vec, i, a):\n    out = numpy.zeros(vec.shape)", "def s_on_vec(basis, vec, i, a):\n    out = vec")
bug('C28', "    for ix, x in enumerate(vec):\n        dd = basis[ix]\n        s1", "    for ix, x in enumerate(vec[1:]):\n        dd = basis[ix]\n        s1")
same('C28', ('''        try:
            idx = basis.index((anew, bnew))
            out[idx] += sa*sb*x
        except ValueError:
            pass''', '''        if (anew, bnew) in basis:
            idx = basis.index((anew, bnew))
            out[idx] += sa*sb*x'''))
same('C28', ('''        sa, anew = ab.excite(i, a)
        if anew is None:
            continue
        sb, bnew = bb.excite(j, b)
        if bnew is None:
            continue
''', '''        sb, bnew = bb.excite(j, b)
        sa, anew = ab.excite(i, a)
        if anew is None or bnew is None:
            continue
'''))
same('C28', ('''    for i, b in enumerate(basis):
        for j, k in enumerate(basis):
            out[i] += vec[j]*gci''', '''    for j, k in enumerate(basis):
        for i, b in enumerate(basis):
            out[i] += vec[j]*gci'''))
same('C28', ('''    for ix, x in enumerate(vec):
        dd = basis[ix]
        s, new''', '''    for x, dd in zip(vec, basis):
        s, new'''))
same('C28', ('''    for ix, x in enumerate(vec):
        dd = basis[ix]
        s, new''', '''    for ix in range(len(basis)):
        dd = basis[ix]
        x = vec[ix]
        s, new'''))
same('C28', ('''    for ix, x in enumerate(vec):
        dd = basis[ix]
        s, new''', '''    for ix, dd in enumerate(basis):
        x = vec[ix]
        if x == 0.0:
            continue
        s, new'''))
same('C28', ("    out = numpy.zeros(vec.shape)\n", "    out = numpy.zeros_like(vec)\n"))
same('C28', ("    out = numpy.zeros(vec.shape)\n", "    out = numpy.zeros(len(basis), dtype=vec.dtype)\n", 2))
same('C28', ("        try:\n            idx = basis.index(new)\n            out[idx] += s*x\n        except ValueError:\n            pass\n", "        _add(basis, out, new, s*x)\n"), ("def s_on_vec", "def _add(basis, out, new, val):\n    try:\n        idx = basis.index(new)\n    except ValueError:\n        return\n    out[idx] += val\n\n\ndef s_on_vec"))
same('C28', ("    for i, b in enumerate(basis):\n        for j, k in enumerate(basis):\n            out[i] += vec[j]*gci_matrixel(b, k, h, I, 0.0)\n", "    for i, b in enumerate(basis):\n        tot = 0.0\n        for j, k in enumerate(basis):\n            tot += vec[j]*gci_matrixel(b, k, h, I, 0.0)\n        out[i] = tot\n"))
same('C28', ("    for i, b in enumerate(basis):\n        for j, k in enumerate(basis):\n            out[i] += vec[j]*gci_matrixel(b, k, h, I, 0.0)\n", "    for i, b in enumerate(basis):\n        row = [gci_matrixel(b, k, h, I, 0.0) for k in basis]\n        out[i] = numpy.dot(numpy.array(row), vec)\n"))

# ---- C29
bug('C29', "C[idx] += s1*s2*T2aa[a, b, i, j]", "C[idx] += s1*s2*T2aa[b, a, i, j]")
bug('C29', "C[idx] += 0.5*s1*s2*T1b[a, i]*T1b[b, j]", "C[idx] += s1*s2*T1b[a, i]*T1b[b, j]")
bug('C29', "C[idx] += s1*s2*s3*T1[ia, ii]*T1[ib, ij]*T1[ic, ik]/6.0", "C[idx] += s1*s2*s3*T1[ia, ii]*T1[ib, ij]*T1[ic, ik]/3.0")
bug('C29', "sa*sb*T2ab[a, b, i, j]", "sa*sb*T2ab[a, b, j, i]")
bug('C29', "C[idx] += s1*s2*s3*s4*T2[ia, ib, ii, ij]*T2[ic, idd, ik, il]/2.0", "C[idx] += s1*s2*s3*s4*T2[ia, ib, ii, ij]*T2[ic, idd, ik, il]")
bug('C29', "                        if l <= k:\n                            continue\n", "", 0)
bug('C29', "    C[0] = 1.0\n", "    C[0] = 0.0\n", 1)
bug('C29', "                        s2, astr = astr.excite(j, b + noa)\n                        if astr is not None:\n                            idx = basis.index((astr, refb))\n                            C[idx] += s1*s2*T2aa", "                        s2, astr = astr.excite(j, b + nob)\n                        if astr is not None:\n                            idx = basis.index((astr, refb))\n                            C[idx] += s1*s2*T2aa")
same('C29', ("                        s1, astr = refa.excite(i, a + noa)\n                        if astr is None:\n                            continue\n                        s2, astr = astr.excite(j, b + noa)\n                        if astr is not None:\n                            idx = basis.index((astr, refb))\n                            C[idx] += s1*s2*T2aa[a, b, i, j]\n",
 "                        s2, astr = refa.excite(j, b + noa)\n                        s1, astr = astr.excite(i, a + noa)\n                        C[basis.index((astr, refb))] += s1*s2*T2aa[a, b, i, j]\n"))
same('C29', ("C[idx] += 0.5*s1*s2*T1a[a, i]*T1a[b, j]", "C[idx] = C[idx] + s1*s2*T1a[a, i]*T1a[b, j]/2.0"))
same('C29', ("    for ii, i in enumerate(iocc):\n        for ia, a in enumerate(ivir):\n            s, dstr = ref.excite(i, a)\n            if dstr is not None:\n                idx = basis.index(dstr)\n                C[idx] += s*T1[ia, ii]\n", "    for ii in range(no):\n        for ia in range(nv):\n            s, dstr = ref.excite(iocc[ii], ivir[ia])\n            idx = basis.index(dstr)\n            C[idx] += s*T1[ia, ii]\n"))
same('C29', ("            for j in range(i+1, noa):\n                for a in range(nva):\n                    for b in range(a+1, nva):\n", "            for j in range(noa):\n                for a in range(nva):\n                    for b in range(nva):\n                        if j <= i or b <= a:\n                            continue\n"))
same('C29', ("    C = numpy.zeros(nd)\n    C[0] = 1.0\n\n", "    C = numpy.zeros(nd)\n    C[basis.index((refa, refb))] = 1.0\n\n"))

# ---- C33
bug('C33', "        for j in range(i, nmode):\n", "        for j in range(i+1, nmode):\n")
bug('C33', "        for j in range(i, nmode):\n", "        for j in range(nmode):\n")
bug('C33', "        occnew = self.occ.copy()\n        occnew[p] = occnew[p] + 1", "        occnew = self.occ\n        occnew[p] = occnew[p] + 1")
bug('C33', "        if occnew[p] == 0:\n            return None\n        else:", "        if occnew[p] < 0:\n            return None\n        else:")
bug('C33', "    for s in singles:\n        basis.append(s)\n    for d in doubles:\n        basis.append(d)\n    return basis\n\n\ndef gmakeCfromT", "    for d in doubles:\n        basis.append(d)\n    return basis\n\n\ndef gmakeCfromT")
same('C33', ("            temp = ref.raize(i).raize(j)\n            blist.append(temp)", "            blist.append(ref.raize(j).raize(i))"))
same('C33', ("    blist = []\n    for i in range(nmode):\n        temp = ref.raize(i)\n        blist.append(temp)\n    return blist", "    return [ref.raize(p) for p in range(nmode)]"))
same('C33', ("        occnew = self.occ.copy()\n        occnew[p] = occnew[p] + 1", "        occnew = self.occ.copy()\n        occnew[p] += 1"))
same('C33', ("        occnew = self.occ.copy()\n        if occnew[p] == 0:\n            return None\n        else:\n            occnew[p] = occnew[p] - 1\n            return Pstring(self.n, occnew)", "        if self.occ[p] < 1:\n            return None\n        occnew = self.occ.copy()\n        occnew[p] -= 1\n        return Pstring(self.n, occnew)"))
same('C33', ("        for j in range(i, nmode):\n", "        for j in range(i + 1):\n"))
same('C33', ("    occ = [0 for i in range(nmode)]\n    ref = Pstring(nmode, occ)\n    basis = [ref]\n    singles = s_pstrings(nmode)\n    doubles", "    ref = Pstring(nmode, numpy.zeros(nmode, dtype=int))\n    basis = [ref]\n    singles = s_pstrings(nmode)\n    doubles"))
