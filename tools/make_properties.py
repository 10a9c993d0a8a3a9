"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json
import os

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": ["cqcpy/" + f for f in files],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
        }})


EQ = "cc_equations.py"
SIZES = ("every number of occupied and virtual orbitals (including unequal alpha/beta counts), every real or "
         "complex tensor with the documented permutational symmetry, every sequence of earlier calls")

prop("C01", "Spin-orbital CCSD/CCD updates equal the projected coupled-cluster equations",
     "For every Fock matrix, every antisymmetric two-electron tensor and all amplitudes, the singles and doubles "
     "arrays returned by each spin-orbital CCSD routine (term-by-term and intermediate-based), and the doubles array of "
     "each CCD routine, equal the projections of exp(-T) H exp(T) onto singles and doubles. The term-by-term and the "
     "intermediate-based routines therefore agree exactly. The inputs are left unmodified, so repeated calls give the same answer.",
     ["inputs", "histories"], SIZES,
     "Tests compare two implementations on one random real input of one size; a slip made in both, or one that only shows "
     "for other sizes, complex data or a second call with the same inputs, passes.",
     [EQ], [("ccsd_simple", "cqcpy/cc_equations.py: sum of _S_* and _D_* kernels"),
            ("ccsd_stanton", "cqcpy/cc_equations.py: _Stanton intermediates"),
            ("ccd_simple, ccd_stanton", "cqcpy/cc_equations.py")],
     ["ccsd_simple(F, I, T1, T2)", "ccsd_stanton(F, I, T1, T2)", "ccd_simple(F, I, T2)", "ccd_stanton(F, I, T2)"])

prop("C02", "Linearised, ladder and ring CC updates are exact subsets of the full update",
     "The linearised CCD and CCSD updates equal the full projected equations with every product of two or more amplitudes "
     "removed. The ladder CCD update equals the bare integrals plus the particle-particle, hole-hole and quadratic ladder "
     "terms of the full CCD update and nothing else; the ring CCD update equals the bare integrals plus those ring terms of "
     "the full CCD update in which each external particle-hole pair (a,i), (b,j) sits on one tensor, and nothing else "
     "(neither has Fock terms). Inputs are left unmodified.",
     ["inputs", "histories"], SIZES,
     "No test calls the linearised, ladder or ring drivers at all.",
     [EQ], [("lccd_simple, lccsd_simple", "cqcpy/cc_equations.py"),
            ("ccd_ladder_simple, ccd_ring_simple", "cqcpy/cc_equations.py: _D_D_ladder, _D_DD_ladder, _D_D_ring, _D_DD_ring")],
     ["lccd_simple", "lccsd_simple", "ccd_ladder_simple", "ccd_ring_simple"])

prop("C03", "Unrestricted CCSD updates equal the spin blocks of the spin-orbital update",
     "For all alpha and beta Fock blocks, antisymmetric same-spin integrals, mixed-spin integrals and spin-blocked "
     "amplitudes, each of the five arrays returned by the unrestricted CCSD routine equals the corresponding spin block of "
     "the spin-orbital CCSD update evaluated on the assembled spin-orbital tensors. This holds for any, also unequal, "
     "numbers of alpha and beta occupied and virtual orbitals, and the inputs are left unmodified.",
     ["inputs", "histories"], SIZES,
     "Tests use equal alpha/beta orbital counts, real random data and a single call.",
     [EQ], [("uccsd_stanton", "cqcpy/cc_equations.py: _u_Stanton intermediates")], ["uccsd_stanton(...)"])

prop("C04", "Restricted CCSD updates equal the closed-shell case of the unrestricted update",
     "For every spatial Fock matrix, every two-electron tensor symmetric under exchange of the two electrons, and every "
     "pair-symmetric T2, the singles and doubles arrays returned by the restricted CCSD routine equal the alpha singles and "
     "alpha-beta doubles of the unrestricted equations on identical alpha and beta quantities. Inputs are left unmodified.",
     ["inputs", "histories"], SIZES,
     "Tests evaluate one random real closed-shell input per size.",
     [EQ], [("rccsd_stanton", "cqcpy/cc_equations.py: _r_Stanton intermediates")], ["rccsd_stanton(F, I, T1, T2)"])

prop("C05", "Spin-orbital Lambda updates equal the gradient of the CC Lagrangian",
     "The arrays returned by every spin-orbital Lambda routine (term-by-term, optimised, intermediate-based, "
     "precomputed-intermediate and doubles-only) equal the derivative of the Lagrangian E(T) + Lambda.R(T) with respect to "
     "the singles and doubles amplitudes, R being the projected equations. All routines therefore agree, and inputs and "
     "precomputed intermediates are left unmodified and reusable.",
     ["inputs", "histories"], SIZES,
     "Tests compare pairs of routines on one random real input; common errors and reuse of the intermediates object across several Lambda vectors are unreached.",
     [EQ], [("ccsd_lambda_simple", "cqcpy/cc_equations.py: _LS_*, _LD_* kernels"),
            ("ccsd_lambda_opt, ccsd_lambda_opt_int, lambda_int", "cqcpy/cc_equations.py"),
            ("ccsd_lambda_stanton, ccd_lambda_simple", "cqcpy/cc_equations.py")],
     ["ccsd_lambda_simple", "ccsd_lambda_opt", "ccsd_lambda_stanton", "ccsd_lambda_opt_int", "ccd_lambda_simple"])

prop("C06", "Unrestricted Lambda updates equal the spin blocks of the Lagrangian gradient",
     "Each of the five arrays returned by the unrestricted Lambda routine equals the corresponding spin block of the "
     "spin-orbital Lagrangian gradient on the assembled spin-orbital tensors, for any (also unequal) alpha and beta "
     "orbital counts. Inputs are left unmodified.",
     ["inputs", "histories"], SIZES,
     "Tests use equal alpha/beta counts, real random data, a single call.",
     [EQ], [("uccsd_lambda_opt", "cqcpy/cc_equations.py: _uccsd_Lambda_opt, _u_LS_TS")], ["uccsd_lambda_opt(...)"])

prop("C07", "Restricted Lambda updates equal the closed-shell Lagrangian gradient",
     "The arrays returned by the restricted Lambda routine equal the alpha singles and alpha-beta doubles blocks of the "
     "unrestricted Lagrangian gradient evaluated on identical alpha and beta quantities, for every pair-symmetric T2, L2 and "
     "electron-exchange-symmetric two-electron tensor. Inputs are left unmodified.",
     ["inputs", "histories"], SIZES,
     "One random real input per size is tested.",
     [EQ], [("rccsd_lambda_opt", "cqcpy/cc_equations.py: _rccsd_Lambda_opt, _r_LS_TS")], ["rccsd_lambda_opt(...)"])

prop("C08", "One-particle densities equal the Lagrangian derivative w.r.t. the Fock matrix",
     "Every block of the one-particle reduced density matrix (spin-orbital, optimised, unrestricted, restricted) equals the "
     "derivative of the CC Lagrangian with respect to the matching Fock block; the unrestricted blocks are its spin blocks and "
     "the restricted ones its closed-shell alpha block. The optional prefactor multiplies exactly the amplitude-only (Lambda-free) "
     "part of the virtual-occupied block. Inputs are left unmodified.",
     ["inputs", "histories"], SIZES,
     "Tests contract with one random real operator of equal alpha/beta size and never vary the prefactor.",
     [EQ], [("ccsd_1rdm_*, ccsd_1rdm_*_opt", "cqcpy/cc_equations.py"), ("uccsd_1rdm_*, rccsd_1rdm_*", "cqcpy/cc_equations.py")],
     ["ccsd_1rdm_ba/ji/ai", "uccsd_1rdm_*", "rccsd_1rdm_*"])

prop("C09", "Two-particle density equals the Lagrangian derivative w.r.t. the integrals",
     "Every block of the spin-orbital two-particle reduced density matrix, in both the term-by-term and the optimised "
     "routine, is antisymmetric where the integral block is and equals the normalised derivative of the CC Lagrangian with respect to the matching "
     "antisymmetrised integral block. The optional prefactor multiplies exactly the amplitude-only part of the "
     "virtual-virtual-occupied-occupied block. Inputs are left unmodified.",
     ["inputs", "histories"], SIZES,
     "Tests compare scalar contractions or two routines on one random real input with prefactor 1.",
     [EQ], [("ccsd_2rdm_*, ccsd_2rdm_*_opt", "cqcpy/cc_equations.py")], ["ccsd_2rdm_{cdab,ciab,bcai,bjai,abij,jkai,kaij,klij}[_opt]"])

prop("C10", "Unrestricted two-particle density equals spin blocks of the spin-orbital one",
     "Every spin block of the unrestricted two-particle reduced density matrix equals the block with the same spin labels of "
     "the spin-orbital two-particle density matrix on the assembled amplitudes, for any (also unequal) alpha and beta orbital counts, with the "
     "optional prefactor acting only on the Lambda-free part. The order of the returned blocks is fixed, and inputs are left unmodified.",
     ["inputs", "histories"], SIZES,
     "Tests use equal alpha/beta counts and compare only scalar contractions for most blocks.",
     [EQ], [("uccsd_2rdm_*", "cqcpy/cc_equations.py")], ["uccsd_2rdm_{ciab,jkai,cdab,bjai,klij,bcai,kaij,abij}"])

prop("C11", "Restricted two-particle density blocks equal closed-shell unrestricted blocks",
     "Every block of the restricted two-particle reduced density matrix equals the alpha-beta spin block (with the same index "
     "order) of the unrestricted density matrix on identical alpha and beta amplitudes. Inputs are left unmodified.",
     ["inputs", "histories"], SIZES,
     "Tests compare one random real closed-shell input.",
     [EQ], [("rccsd_2rdm_*", "cqcpy/cc_equations.py")], ["rccsd_2rdm_{ciab,jkai,cdab,bjai,bjia,klij,bcai,kaij,abij}"])

prop("C12", "Energy expressions agree across spin-orbital, unrestricted and restricted forms",
     "The CC energy routines return the Fermi-vacuum expectation value of H exp(T) (singles, doubles and singles-squared parts separately "
     "and in total), and the MP2 routines the singles and doubles parts of it; the unrestricted and restricted routines return the same number as the spin-orbital routine on "
     "the assembled tensors. The two-amplitude singles-squared routine is the bilinear form whose diagonal is the "
     "singles-squared part. Inputs are left unmodified.",
     ["inputs", "histories"], SIZES,
     "MP2 routines and the bilinear routine are untested; others are tested on one converged molecule or one random input.",
     ["cc_energy.py"], [("cc_energy*, mp2_energy", "cqcpy/cc_energy.py"), ("ucc_energy, rcc_energy, ump2_energy", "cqcpy/cc_energy.py")],
     ["cc_energy", "mp2_energy", "ucc_energy", "ump2_energy", "rcc_energy"])

prop("C13", "The scale factor of every residual kernel scales its whole contribution linearly",
     "Every kernel that accumulates amplitude or Lambda contributions into caller-supplied arrays with an optional scale "
     "factor adds exactly that factor times the contribution it adds with factor one, for every factor. It adds to what the "
     "arrays already hold and changes nothing but those arrays.",
     ["inputs"], "every value of the scale factor, every prior content of the accumulators, all sizes and tensors",
     "All tests run with the default factor of one.",
     [EQ], [("fac keyword of _S_*, _D_*, _Stanton*, _LS_*, _LD_*, _Lambda_*", "cqcpy/cc_equations.py")],
     ["_S_*(T1, ..., fac)", "_D_*(T2, ..., fac)", "_Stanton, _u_Stanton, _r_Stanton", "_Lambda_*"])

prop("C14", "Library calls modify neither their arguments nor library state",
     "No public function or constructor of the package modifies an array, list or object passed to it, module-level state, or a "
     "default argument; apart from the random-tensor generators, results depend on the arguments only. Arrays returned by the residual, "
     "density-matrix, denominator and spatial-to-spin routines share no memory with the arguments.",
     ["inputs", "histories"], "every public function, every call history",
     "Tests rarely reuse an input after passing it to a routine and never inspect it afterwards.",
     [EQ, "cc_energy.py", "ci_utils.py", "ft_utils.py", "integrals.py", "ov_blocks.py", "spin_utils.py", "test_utils.py", "utils.py"],
     [("copies before in-place accumulation (.copy(), .astype(), einsum results)", "cqcpy/*.py")],
     ["all public functions"])

prop("C15", "Spatial-to-spin assembly puts every spin block in place with the right sign",
     "Assembling spin-orbital tensors from alpha/beta blocks places the same-spin blocks, the mixed-spin blocks and their "
     "exchange counterparts (with minus sign) at the positions given by alpha-before-beta ordering in every axis, "
     "zero elsewhere, for any (also unequal) alpha/beta orbital counts, for Fock matrices, singles, doubles, denominators and all "
     "two-electron blocks. The assembled doubles and two-electron tensors are antisymmetric "
     "whenever the inputs are consistent. Denominator tensors take the mixed value, without sign change, in all four mixed-spin blocks.",
     ["inputs"], "every alpha/beta occupied/virtual counts, all block contents, real or complex",
     "The amplitude test asserts a vacuous expression, and the integral tests use equal alpha/beta counts and energies only.",
     ["spin_utils.py"], [("F_to_spin, T1_to_spin, T2_to_spin, D2_to_spin", "cqcpy/spin_utils.py"),
                         ("int_to_spin, int_to_spin2, int_to_spin_block", "cqcpy/spin_utils.py")],
     ["F_to_spin", "T1_to_spin", "T2_to_spin", "D2_to_spin", "int_to_spin", "int_to_spin2", "int_to_spin_block"])

prop("C16", "Spin-to-spatial extraction inverts the assembly",
     "Extracting the alpha/beta blocks of a spin-orbital Fock matrix, singles, doubles or two-electron container that was "
     "assembled from spatial blocks gives back exactly the original blocks, for any (also unequal) alpha/beta orbital counts.",
     ["inputs"], "every alpha/beta occupied/virtual counts, all block contents",
     "The doubles round trip test asserts a vacuous expression; no test uses unequal counts; the Fock extraction is untested.",
     ["spin_utils.py"], [("F_to_spatial, T1_to_spatial, T2_to_spatial, int_to_spatial", "cqcpy/spin_utils.py")],
     ["X_to_spatial(X_to_spin(...))"])

prop("C17", "Occupied/virtual block containers expose exactly the slice their name says",
     "In every block container, the block named by a string of o and v is the sub-array of the full tensor taking, axis by "
     "axis, the leading occupied or the trailing virtual range of that axis, each axis with its own sizes. "
     "Constructors store each argument under its own name, and absent blocks stay absent.",
     ["inputs"], "all axis sizes (four independent occupied/virtual splits), all 16 blocks",
     "Tests use one size and read only some blocks.",
     ["ov_blocks.py"], [("one_e_blocks, two_e_blocks, two_e_blocks_full", "cqcpy/ov_blocks.py"),
                        ("make_two_e_blocks, make_two_e_blocks_full", "cqcpy/ov_blocks.py")],
     ["make_two_e_blocks(...)", "make_two_e_blocks_full(...)", "container attributes"])

prop("C18", "Denominator and block-diagonal helpers are exact for all shapes",
     "The energy-denominator helpers return, element by element, the sum of the virtual minus the occupied energies of the "
     "matching index positions (each spin with its own energies), and the block-diagonal helper returns the matrix with its two "
     "arguments on the diagonal blocks and zeros elsewhere, for rectangular and unequal shapes. Inputs are left unmodified.",
     ["inputs"], "every vector length and matrix shape",
     "The unrestricted denominator is exercised with equal spins only; block shapes are few.",
     ["utils.py"], [("block_diag, D1, D2, D2u", "cqcpy/utils.py")], ["block_diag", "D1", "D2", "D2u"])

prop("C19", "Random tensor generators deliver the advertised shapes and symmetries",
     "Every random-tensor generator returns arrays of the requested shapes whose permutational symmetries (hermitian Fock, "
     "antisymmetric or electron-exchange-symmetric integrals, antisymmetric doubles and lambda amplitudes, consistent blocks of one underlying "
     "tensor) hold identically for every random draw.",
     ["inputs"], "every random draw and all orbital counts",
     "Tests consume the generators but never check them; a lost symmetry hides other errors.",
     ["test_utils.py"], [("make_random_*", "cqcpy/test_utils.py")], ["make_random_F/I/I_anti/Itot/Ifull/T/L/ft_*"])

prop("C20", "Molecular integral helpers keep orbital order, notation and antisymmetrisation",
     "For any four orbital sets, the chemists' helper returns (12|34) with axes in argument order, the physicists' helper its "
     "1<->2 swap of the middle axes <13|24> such that axis k runs over the k-th orbital set passed, and the antisymmetrised variants subtract exactly the "
     "exchange of the last pair. Every argument is used in its own position, also when all four sets differ.",
     ["inputs", "configurations"], "four arbitrary (distinct, differently sized) orbital sets; anti on and off",
     "Tests pass the same orbital set in all four positions.",
     ["integrals.py"], [("get_chem, get_chem_anti, get_phys, get_phys_anti", "cqcpy/integrals.py")],
     ["get_chem", "get_chem_anti", "get_phys", "get_phys_anti"])

prop("C21", "Unrestricted integral helpers place spin blocks and exchange correctly",
     "The spin-orbital integral helpers return tensors in which alpha precedes beta in every axis, entries vanish unless each "
     "electron keeps its spin, non-vanishing entries are the spatial integrals of the matching orbital "
     "sets, and the antisymmetrised variants subtract exactly the exchanged tensor. This holds for four different and differently sized alpha and beta orbital sets.",
     ["inputs", "configurations"], "arbitrary alpha/beta orbital sets (all distinct, differently sized); anti on and off",
     "Tests use one molecule with equal sets in all positions.",
     ["integrals.py"], [("get_chemu, get_chem_antiu, get_chemu_all, get_chem_antiu_all", "cqcpy/integrals.py"),
                        ("get_physu_all, get_phys_antiu_all, get_phys_antiu", "cqcpy/integrals.py")],
     ["get_chemu", "get_chemu_all", "get_physu_all", "get_phys_antiu", "get_phys_antiu_all"])

prop("C22", "Periodic integral helpers follow the same conventions and conserve momentum",
     "The periodic and k-point integral helpers follow the conventions of the molecular ones (axis order, spin blocks, "
     "antisymmetrisation); k-point blocks are computed with the k-points of their own axes and are exactly zero unless crystal "
     "momentum is conserved, each block landing at the position of its k-points in the assembled tensor. Bloch orbitals enter the bra side of each pair conjugated.",
     ["inputs", "configurations"], "arbitrary orbital sets, any number of k-points",
     "Tests use tiny cells with identical orbital sets.",
     ["integrals.py"], [("get_chem_sol, get_phys_sol, get_chemu_sol, get_chemu_all_sol, ...", "cqcpy/integrals.py"),
                        ("get_chem_solk, get_phys_solk, get_solk_integrals", "cqcpy/integrals.py")],
     ["get_chem_sol", "get_chem_solk", "get_phys_sol", "get_phys_solk", "get_solk_integrals", "get_physu_all_gen"])

prop("C23", "Integral block container delivers exactly the requested, correctly built blocks",
     "For each request code the integral container reports as available, and holds, exactly the documented block(s) (all for "
     "code 0); each block is the antisymmetrised physicists' spin-orbital integral over the occupied/virtual orbitals named by its label, "
     "with occupied and virtual orbitals selected by occupation number for each spin, for restricted and "
     "unrestricted, molecular and periodic references alike.",
     ["inputs", "configurations"], "request codes, restricted/unrestricted, molecule/periodic, any occupation pattern",
     "Tests build code 0 for one closed-shell molecule.",
     ["integrals.py"], [("eri_blocks", "cqcpy/integrals.py: __init__, _build_integrals_mol, _build_integrals_sol")],
     ["eri_blocks(mf, code)"])

prop("C24", "Exciting a determinant string applies the fermionic operator exactly",
     "Exciting orbital i to orbital a returns no state when i is empty or when a differs from i and is filled, and otherwise the "
     "string with i emptied and a filled (the string itself for a = i) together with the fermionic sign (-1)^(number of filled orbitals strictly "
     "between them). The original string is unchanged and string equality compares occupations.",
     ["inputs"], "every string length, occupation, and pair of orbitals (i<a, i>a, i=a)",
     "Tests exercise a handful of strings.",
     ["ci_utils.py"], [("Dstring.excite, Dstring.__eq__, level, diff", "cqcpy/ci_utils.py")], ["Dstring.excite(i, a)", "level", "diff"])

prop("C25", "Excited-string generators list every excited string exactly once",
     "For each of the single, double, triple and quadruple generators, and any reference occupation (default: lowest orbitals), the returned list contains every "
     "string obtained by moving exactly that many electrons from occupied to empty orbitals of the reference, each exactly once, and nothing else.",
     ["inputs"], "every number of orbitals, electrons and reference occupation",
     "Triple and quadruple generators and explicit reference occupations are untested.",
     ["ci_utils.py"], [("s_strings, d_strings, t_strings, q_strings", "cqcpy/ci_utils.py")], ["s_strings", "d_strings", "t_strings", "q_strings"])

prop("C26", "CI bases hold the reference and every determinant up to the level once",
     "Each CI basis starts with the reference determinant (unless the singles basis is asked to omit it) and contains every alpha/beta string pair whose "
     "total excitation level does not exceed the level in its name exactly once; the general-spin bases do the same for single strings "
     "over alpha-then-beta orbitals with the reference filling the lowest alpha and beta orbitals (alpha taking the odd electron).",
     ["inputs"], "every orbital count and every alpha/beta electron count",
     "The general-spin, triple and quadruple bases are untested, and others are compared for one system.",
     ["ci_utils.py"], [("ucis/ucisd/ucisdt/ucisdtq_basis", "cqcpy/ci_utils.py"), ("gcis/gcisd/gcisdt/gcisdtq_basis", "cqcpy/ci_utils.py")],
     ["u*_basis", "g*_basis"])

prop("C27", "Determinant matrix elements obey the Slater-Condon rules with correct phases",
     "The matrix element between two determinants equals the Slater-Condon value with the phase fixed by orbital ordering: "
     "constant plus one- and two-electron energy on the diagonal, the mean-field element for single, the integral for double differences (same-spin antisymmetrised, mixed "
     "direct), zero beyond. It holds for every relative order of the orbitals involved, in both the alpha/beta and the "
     "general-spin routine, for the stated normal order (alpha strings left of beta strings).",
     ["inputs"], "every pair of determinants, every relative orbital ordering, arbitrary integrals with electron-exchange symmetry",
     "The general-spin routine is untested; the alpha/beta one is tested through one ground-state energy.",
     ["ci_utils.py"], [("ci_matrixel, gci_matrixel", "cqcpy/ci_utils.py")], ["ci_matrixel", "gci_matrixel"])

prop("C28", "Operator-on-vector routines apply the stated operator within the basis",
     "Applying a single or double excitation operator to a CI vector returns, for each basis determinant, the sum over basis determinants of vector entry times "
     "fermionic sign where the operator connects the two, dropping results outside the basis; applying the Hamiltonian returns the matrix of "
     "determinant matrix elements (no constant) times the vector. The vector passed in is unchanged.",
     ["inputs"], "any basis, vector, and orbital indices",
     "Only the alpha/beta Hamiltonian routine is tested.",
     ["ci_utils.py"], [("s/sa/sb/d/da/db/sasb_on_vec, H_on_vec, gH_on_vec", "cqcpy/ci_utils.py")], ["*_on_vec"])

prop("C29", "CI coefficients from cluster amplitudes equal the exponential expansion",
     "The CI vector built from singles and doubles amplitudes holds, for every determinant up to the requested excitation level (1 to 4), the coefficient of that "
     "determinant in exp(T1+T2) applied to the reference with unit reference weight, in the order of the matching CI basis. This holds for the "
     "alpha/beta and for the general-spin routine, for all orbital counts, with the reference of the matching basis given explicitly or by default.",
     ["inputs"], "all orbital counts, amplitudes, orders 1..4",
     "No test calls either routine.",
     ["ci_utils.py"], [("makeCfromT, gmakeCfromT", "cqcpy/ci_utils.py")], ["makeCfromT", "gmakeCfromT"])

prop("C30", "Fermi functions are accurate and finite for every argument",
     "For every inverse temperature, energy and chemical potential the occupied and virtual Fermi functions equal 1/(e^x+1) and 1/(e^-x+1), "
     "x=beta(e-mu), and their deviations from the zero-temperature limits 0 and 1 are correct up to a relative error of 1e-12 (rounding aside). "
     "This includes arguments of any magnitude and sign, where no intermediate exponential overflows and no small value is lost to cancellation.",
     ["inputs"], "all real x",
     "Tests evaluate a few arguments; the asymptotic branches and the switching points are reached at one or two values.",
     ["ft_utils.py"], [("fermi_function, vfermi_function", "cqcpy/ft_utils.py")], ["fermi_function", "vfermi_function"])

prop("C31", "Grand potential and its temperature derivative are consistent on every branch",
     "For every argument the grand potential equals -log(1+e^-x)/beta and its derivative routine equals the derivative of that with respect to "
     "beta; the deviations of both from their zero-temperature limits are correct up to a relative error of 1e-8 (rounding aside). "
     "No branch overflows and none loses a small value to cancellation.",
     ["inputs"], "all beta>0, energies, chemical potentials",
     "Tests check a few finite-difference points in the middle branch.",
     ["ft_utils.py"], [("grand_potential0, dgrand_potential0", "cqcpy/ft_utils.py")], ["grand_potential0", "dgrand_potential0"])

prop("C32", "Vector finite-temperature helpers apply the scalar function to every energy",
     "The vector Fermi, grand-potential and grand-potential-derivative helpers return, in order, the scalar function of every energy; the unrestricted "
     "grand-potential helper returns such a vector for alpha and one for beta (lengths may differ). "
     "The Hartree-to-Kelvin conversion multiplies by the inverse of the Boltzmann constant in Hartree per Kelvin (to six digits).",
     ["inputs"], "every vector length, including unequal alpha/beta lengths",
     "Tests use one or two short vectors; the unrestricted helper and the conversion are untested.",
     ["ft_utils.py"], [("ff, ffv, GP0, uGP0, dGP0, HtoK", "cqcpy/ft_utils.py")], ["ff", "ffv", "GP0", "uGP0", "dGP0", "HtoK"])

prop("C33", "Boson strings and vibrational bases are complete and free of duplicates",
     "Raising a mode adds one quantum to that mode only; lowering removes one, or returns no state when it is empty; originals are unchanged. "
     "The vibrational single and double bases contain the vacuum and every string with one (and two) quanta exactly once.",
     ["inputs"], "every number of modes and every occupation",
     "Boson strings are untested.",
     ["ci_utils.py"], [("Pstring, s_pstrings, d_pstrings, vcis_basis, vcisd_basis", "cqcpy/ci_utils.py")],
     ["Pstring.raize/lower", "vcis_basis", "vcisd_basis"])

prop("C34", "Complex tensors pass through the utilities without losing imaginary parts",
     "Spin assembly and extraction, block-diagonal assembly, spin-orbital integral assembly, CI coefficient construction and operator-on-vector routines "
     "return, for input with any complex part, results whose imaginary part is that of the exact result: no value is silently cast to a real array.",
     ["inputs"], "every complex input",
     "All tests of these routines use real tensors.",
     ["spin_utils.py", "ci_utils.py", "integrals.py", "utils.py"],
     [("dtype of allocated result arrays", "cqcpy/spin_utils.py, cqcpy/ci_utils.py, cqcpy/integrals.py")],
     ["*_to_spin", "int_to_spin*", "makeCfromT", "*_on_vec", "get_chemu*"])

prop("C35", "Finite-temperature functions are accurate to rounding error",
     "The scalar finite-temperature functions return, in double precision, values within a few units in the last place of the exact result.",
     ["inputs"], "all double-precision arguments",
     "Tests use absolute thresholds at a few points.",
     ["ft_utils.py"], [("log/exp formulas near the switching points", "cqcpy/ft_utils.py")], ["grand_potential0", "dgrand_potential0"])

prop("C36", "Integral helpers reproduce the mean-field energy of the reference calculation",
     "Contracting the integrals returned for the occupied orbitals of a converged mean-field object with its one-electron part reproduces the "
     "energy reported by the electronic-structure package, for every molecule and cell.",
     ["inputs", "configurations"], "all molecules and cells",
     "Tests check two or three systems.",
     ["integrals.py"], [("calls into pyscf ao2mo / df.ao2mo", "cqcpy/integrals.py")], ["get_phys_antiu_all_gen", "eri_blocks"])

prop("C37", "Each residual kernel adds exactly the terms of its excitation pattern",
     "Each kernel that accumulates one class of amplitude or Lambda contributions adds exactly the terms of the projected equations "
     "(or of the derivative of the Lagrangian) that contain the numbers of single and double amplitudes the kernel is named for; the ladder and "
     "ring kernels add only the ladder or ring terms, and the whole-equation kernels add every term that contains an amplitude or multiplier.",
     ["inputs"], "every kernel, all sizes and tensors",
     "Tests compare sums of kernels or intermediates at one size; a term moved between kernels, or a kernel no driver uses, is never seen, "
     "though finite-temperature codes call kernels one by one.",
     [EQ], [("_S_*, _D_*, _LS_*, _LD_* and _Stanton/_Lambda kernels", "cqcpy/cc_equations.py")],
     ["_S_*", "_D_*", "_LS_*", "_LD_*", "_Stanton*", "_Lambda_*"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
