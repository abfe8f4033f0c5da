"""writes properties.jsonl and MANIFEST.json from the table below (only properties that have a module in pbt/props)"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": ["CasimirRio/"+f for f in files], "mechanism": [{"name": a, "where": "CasimirRio/"+b} for a, b in mech]},
                  _t=technique, _n=note))


I = ["inputs"]
IC = ["inputs", "configurations"]

prop("C01", "Logarithmic modified spherical Bessel functions are exact",
     "For every positive argument (about 1e-10 to 3e4) and every order the routines return the logarithms of the modified spherical Bessel functions of first and second kind, finite and correct to about 1e-10, with the requested range of orders and one row per argument. The value for an argument depends on that argument only: not on the other arguments of the array, their order, their repetition or the highest order asked for. Arrays of the caller stay unchanged and a non-integer highest order is rejected.",
     I, "all argument arrays (any length, unsorted, repeated), all orders",
     "the tests compare a few orders at a few sorted arguments; the error sources (series switch at 1e-3, continued-fraction length chosen from the array, ascending and descending recursions) depend on the combination of arguments and orders",
     ["bessel_sk.py"], [("lniknu, lnknu, fraction, mie_bessels, trans_bessels", "bessel_sk.py")],
     "generated arrays against a 30 digit mpmath oracle; metamorphic batch and recurrence relations", "arguments 1e-10..3e4, orders to 130 (350 thorough); tolerance 2e-11 in the logarithm plus documented cancellation of the closed forms")
prop("C02", "Gaunt coefficients are exact for all orders and projections",
     "For all orders l1, l2 and all projections m the returned coefficients are the integrals of Y(l1,m) Y(l2,-m) Y(q,0) for q = |l1-l2|, |l1-l2|+2, ..., l1+l2, in that order and with their signs. For |m| larger than the smaller order they all vanish.",
     I, "all (l1, l2, m), orders up to several hundred",
     "the tests sample small equal orders; the recursions lose accuracy only for particular combinations of large, different orders and m",
     ["cython_gaunt.pyx"], [("gaunt: start values and three-term recursion", "cython_gaunt.pyx")],
     "generated (l1,l2,m) against exact rational arithmetic, product-expansion and sum rules", "exact oracle to order 150 (320 thorough), sum rules to 300 (600)")
prop("C03", "Material response and classification at every imaginary frequency",
     "Permittivity and permeability of any material given by oscillators are the Lorentz (or Smith-Drude) sum and the magnetic relaxation law at every positive imaginary wavenumber; the predefined materials follow their published parameters. A material counts as dielectric exactly if its permittivity stays finite at zero frequency, and as having finite conductivity exactly if it has no undamped free carriers. Evaluating a response changes neither the material nor the wavenumbers.",
     IC, "all oscillator lists, all wavenumbers, all predefined materials",
     "tests evaluate a few materials at one wavenumber", ["materials.py"],
     [("material.epsilon, mu, is_dielectric, is_sigma_finite", "materials.py"), ("predefined materials", "materials.py")],
     "generated oscillator lists against a 40 digit model and an independent parameter table", "wavenumbers 1e-12..1e6 1/micron")
prop("C04", "Mie coefficients of a sphere in a medium",
     "For every sphere material (dielectric, Drude, plasma, magnetic, perfectly conducting), every non-conducting (also magnetic) medium, radius, imaginary wavenumber and range of orders, the TE and TM coefficients with the returned logarithmic scaling equal the exact Mie coefficients of a sphere hit from outside. They obey electric-magnetic duality, depend on wavenumber times radius only, and turn into those of a perfect conductor for infinite plasma frequency.",
     IC, "all materials, media, radii, wavenumbers and ranges of orders",
     "tests use one radius and a few wavenumbers of a few materials", ["scattering.py", "bessel_sk.py"],
     [("mie", "scattering.py"), ("logarithmic derivatives from mie_bessels", "scattering.py")],
     "generated spheres against a 30 digit mpmath Mie oracle; metamorphic relations", "orders to 60 (200 thorough), arguments below 2e4")
prop("C05", "Reflection coefficients of the inner wall of a spherical cavity",
     "For a sphere that encloses the other one, the coefficients by which outgoing waves are reflected at the inner wall are exact for every wall material (dielectric, Drude, plasma, magnetic, perfectly conducting), every filling, radius, imaginary wavenumber and range of orders. They obey duality and size scaling and have the perfect-conductor limit.",
     IC, "all wall and filling materials, radii, wavenumbers and ranges of orders",
     "the interior coefficients are covered by a few values only", ["scattering.py"], [("mie_internal", "scattering.py")],
     "generated cavities against a 30 digit mpmath oracle; metamorphic relations", "orders to 60 (200 thorough), arguments below 2e4")
prop("C06", "Layered and coated spheres scatter like the exact multilayer",
     "Mie coefficients of coated spheres and of spheres with any number of concentric layers (also around a perfectly conducting core) are the exact ones of the layered body. Dividing a homogeneous region by a fictitious interface, or surrounding the body by a layer of medium, changes nothing; the coated and the layered way of describing a body, and a single layer and a solid sphere, give the same interaction. Wrong layer lists are rejected and the caller's lists stay unchanged.",
     IC, "all numbers of layers, materials, radii, wavenumbers",
     "tests contain one coated configuration; layers nest, so errors appear for particular numbers of layers and materials", ["stratified_sphere_scattering.py", "scattering.py", "geometry.py"],
     [("StratifiedMieScattering", "stratified_sphere_scattering.py"), ("coated_miescattering.mie_coated", "scattering.py"), ("CoatedSphereSphere", "geometry.py")],
     "generated layer stacks against a 50 digit mpmath transfer oracle; metamorphic fictitious interfaces", "one to four layers, orders to 30")
prop("C07", "Zero-frequency Mie coefficients are the exact limits",
     "The zero-frequency coefficients of sphere and cavity, for every class of material (dielectric, Drude, plasma, magnetic, perfect conductor) and every order, are the limits of the finite-frequency ones after the power of the frequency is split off. A conducting medium between the surfaces is refused instead of giving a wrong value.",
     IC, "all classes of materials, radii and ranges of orders",
     "the limit depends on the class of the material; tests check a few classes for one radius", ["scattering.py", "materials.py"],
     [("mie_k0, mie_internal_k0, plasma_wavenumber", "scattering.py")],
     "generated materials against the 170 digit coefficient at k=1e-60, and against the code's own small-k values", "orders to 40")
prop("C08", "Translation coefficients of vector spherical waves",
     "The coefficients that re-expand a spherical wave around a centre shifted along the axis are exact for all pairs of orders, projections, positive distances, wavenumbers and media, for regular-to-regular and outgoing-to-regular translations, in both directions. They compose (translating twice is translating by the sum; back and forth is the identity) and their zero-frequency values are the limits.",
     IC, "all orders, projections, distances, wavenumbers, media, directions",
     "tests look at a few coefficients of low order", ["translation.py", "cython_gaunt.pyx", "bessel_sk.py", "helper_functions.py"],
     [("get_vl1l2, trans_ab, trans_k0_ext, trans_k0_int", "translation.py")],
     "generated translations against 40 digit mpmath sums with exact Gaunt coefficients; group relations", "orders to 14 completely, to 50 (125) selected")
prop("C09", "Zero-frequency interaction is the limit of the finite-frequency one",
     "The analytic zero-frequency contribution, for each projection, summed over all of them, for both polarizations separately and through every interface that accepts zero frequency, equals the limit of the contribution at small wavenumber, for all classes of materials, exterior and interior. Where no analytic expression exists (layered or coated spheres) it is refused instead of returning a value for other bodies.",
     IC, "all geometries, materials, truncations",
     "tests compare single configurations to stored numbers", ["geometry.py", "scattering.py", "translation.py"],
     [("roundTrip_elements_k0, single_m_k0, mSumme_k0, blockmatrices", "geometry.py")],
     "generated geometries against a 40 digit static oracle and the code's own k->0 sequence", "orders to 5 against the oracle, to 12 for the limit")
prop("C10", "Determinants of the round-trip operator are exact",
     "For any two spheres with different centres (exterior or one inside the other), any materials, truncations, projection and wavenumbers, the contribution of one projection is ln det(1-M) of the truncated round-trip operator built from exact Mie and translation coefficients. All interfaces to that operator (the four blocks, the assembled matrix, the determinant) describe the same operator, and for ordinary bodies in vacuum the determinant lies between zero and one.",
     IC, "all geometries, materials, truncations, projections, wavenumber arrays",
     "tests store a few numbers for small truncations", ["geometry.py"],
     [("roundTrip_elements, roundTrip_matrix, single_m, blockmatrices", "geometry.py")],
     "generated geometries against 40 digit mpmath determinants", "lmax to 4, lssmax to 5 against mpmath")
prop("C11", "Symmetries of the interaction of two spheres",
     "The interaction does not change when the spheres are interchanged together with their truncations, when all lengths and inverse frequencies are rescaled together, when permittivities and permeabilities are interchanged, or when a constant medium is absorbed into wavenumber and responses. A sphere made of the medium does not interact; dielectrics in vacuum attract, more strongly for larger permittivity, for more multipoles and for smaller distance.",
     IC, "all geometries, materials, wavenumbers; pairs of related calculations",
     "relations between calculations are not tested at all", ["geometry.py", "scattering.py", "translation.py"],
     [("SphereSphere.single_m, mSumme, mSumme_k0", "geometry.py")],
     "metamorphic relations over generated geometries", "lmax to 6")
prop("C12", "Sum over projections and round-trip expansion",
     "The total contribution of a wavenumber is the m=0 term plus twice the terms of all positive projections, truncated only where the requested precision allows it, and each entry depends only on its own wavenumber. The trace evaluation gives minus the traces of the powers of the round-trip operator divided by the power, with automatic order until the requested precision is reached at every wavenumber, the single round-trip evaluation only the first of them up to the given projection. Unknown evaluation methods are refused.",
     IC, "all geometries, truncations, precisions, wavenumber arrays, numbers of round trips",
     "the stopping rule depends on all wavenumbers of the array at once; tests use single ones", ["geometry.py"],
     [("mSumme, mSum_roundtrips, mSum_oneRoundtrip, single_m_roundtrips", "geometry.py")],
     "generated geometries against per-projection evaluation and 40 digit traces", "lmax to 8, arrays to 70 wavenumbers")
prop("C13", "Results do not depend on earlier calls",
     "Whatever was computed before on the same geometry, on another one sharing its materials, or by the same thermodynamic calculation - other wavenumbers, projections, zero frequency, force or free energy, in any order - every call returns what it returns on a fresh object. Caches never leak values of other wavenumbers, and predefined materials are never modified.",
     ["histories", "inputs"], "all histories of calls on objects that share state",
     "tests create a new object for every value", ["geometry.py", "thermodynamics.py", "materials.py"],
     [("Mie and translation caches keyed by wavenumbers and projection", "geometry.py"), ("stored Matsubara terms, force flag", "thermodynamics.py")],
     "model-based generation of call histories; oracle: the same call on fresh objects", "histories of 2-8 calls on two interleaved objects")
prop("C14", "Matrix tools act on every matrix exactly as defined",
     "Balancing a matrix is a similarity by powers of two that keeps determinant, diagonal and zeros and ends for every input; logarithmic determinants, inverses (by blocks where the upper left block is invertible), products and traces of stacks of (block) matrices equal those of each single matrix, however badly scaled. Scalings add a similarity and a shift to logarithms and nothing else. Arguments of wrong or mismatched shape are refused with a value error.",
     I, "all stacks of matrices, dimensions, scalings",
     "tests take a few small matrices", ["geometry.py", "matrix_balancing.pyx"],
     [("balance", "matrix_balancing.pyx"), ("sln_det_3d, sln_det_blockdiagonal, balanced_slogdet, inv_3d_blockmatrix, trace_dot_3d, single_k_scale, dynamic_scaling", "geometry.py")],
     "generated badly scaled matrices against mpmath and numpy", "dimensions to 9 (25 thorough), spread up to 200 decades")
prop("C15", "Automatic truncation reaches the requested precision",
     "Automatic multipole and frequency truncations depend only on ratios of lengths, on the precision and not on the order of the spheres, grow for smaller gaps and higher precision, respect the offset, and never override explicit values. With them the interaction at a frequency and the free energy are converged to a small multiple of the requested precision, whichever sphere is larger, exterior or interior.",
     IC, "all geometries, precisions, temperatures",
     "tests never compare with a converged result", ["geometry.py", "thermodynamics.py"],
     [("automatic lmax, lssmax", "geometry.py"), ("automatic nmax", "thermodynamics.py")],
     "generated geometries against the documented rule, metamorphic rescaling, and against larger truncations", "gaps down to 0.1 of the radius")
prop("C16", "Free energy, entropy and zero-temperature energy from Matsubara terms",
     "At every temperature the free energy is the temperature times the sum of the Matsubara terms, the zeroth with weight one half, evaluated analytically where possible and asked for; the entropy is minus its temperature derivative. The terms do not depend on how the frequencies are cut into slices. The zero-temperature energy is the integral over all wavenumbers and the limit of the free energy for low temperatures; the single round-trip variant and the convergence measure follow the same rules.",
     IC, "all geometries, temperatures, numbers of terms, slicings",
     "tests use one geometry and few temperatures", ["thermodynamics.py", "geometry.py"],
     [("finiteT.free_energy, entropy, e0, F_zero_T, F_alle, get_f_matsubaras; oneRoundtrip; slicewise_eval", "thermodynamics.py")],
     "generated calculations against term-by-term sums on fresh geometries and independent quadrature", "nmax to 30 (to 170 in the slicing law)")
prop("C17", "The force is minus the derivative of the free energy",
     "At every temperature the Casimir force equals minus the derivative of the free energy with respect to the distance of the centres, for solid, coated and layered spheres, exterior and interior; its terms are minus the derivatives of ln det(1-M), the zeroth with weight one half. The translation coefficients of the force evaluation are the derivatives of the ordinary ones. Non-magnetic bodies in vacuum attract.",
     IC, "all geometries, materials, temperatures",
     "no test computes a force", ["thermodynamics.py", "geometry.py", "translation.py"],
     [("finiteT.force, F_alle", "thermodynamics.py"), ("mSum_trace_dot, supermatrix", "geometry.py"), ("get_vl1l2_force", "translation.py")],
     "generated geometries against differences of free energies and of 50 digit determinants", "lmax to 4")
prop("C18", "Plane-plane Lifshitz free energy and pressure",
     "For any two half-spaces (dielectric, metallic, magnetic, perfectly conducting) in any dielectric or magnetic medium the reflection coefficients are Fresnel's, and free energy, its Matsubara terms, its zero- and infinite-temperature values and the pressure are those of the Lifshitz formula in the documented units, in both implementations (PFA.py and raw_PFA.py). The pressure is minus the derivative of the free energy; shielding removes exactly the zeroth term. Caller's arrays stay unchanged.",
     IC, "all materials, distances, temperatures, frequencies",
     "tests check perfect conductors at one distance for zero and infinite temperature", ["PFA.py", "raw_PFA.py", "scattering.py"],
     [("fresnel, fresnelPEC", "scattering.py"), ("roundTrips, roundTrip, planeplaneFreeEnergy, planeplaneFreeEnergyHT, planeplane_e0, get_f_matsubaras, planeplanePressure", "PFA.py"), ("the same functions", "raw_PFA.py")],
     "generated plates against 40 digit integrands and independent graded Gauss-Legendre quadrature; metamorphic derivative relation", "temperature times distance 0.4..40; tolerance 1e-6 relative")
prop("C19", "Proximity force approximation for spheres",
     "The surface distance of two spheres at a lateral coordinate is the geometric one, exterior and interior (first sphere inside the second). In PFA.py the force is 2 pi times the effective radius times the plane-plane free energy at the gap, and the energy the integral of that free energy over the cross section of the smaller sphere, for finite and infinite (force: also zero) temperature, in any order of exterior spheres. In raw_PFA.py force and energy are 2 pi Reff and pi Reff times gap times the plane-plane free energy, with the effective radius of the exterior or interior configuration.",
     IC, "all radii, distances, temperatures, materials",
     "tests check the distance at one point", ["PFA.py", "raw_PFA.py"],
     [("distance, spheresphereEnergy, spheresphereForce", "PFA.py"), ("spheresphereEnergy, spheresphereForce", "raw_PFA.py")],
     "generated spheres and materials against independent quadrature of the Lifshitz formula over the surfaces", "gaps 0.05..3 of the smaller radius")
prop("C20", "Jobs described by a configuration file give the documented result",
     "A job file run through the command line gives, for every combination of its options, the quantity the library returns for the same parameters, with a header naming them, in a result file. A distance given on the command line replaces the one of the file. Existing files are never overwritten, a wrong number of arguments is a ValueError, and failing runs leave no file.",
     ["configurations", "inputs", "histories"], "all job files and sequences of runs in a directory",
     "the command line program is not tested", ["worker.py"], [("option parsing, naming of the output, header", "worker.py")],
     "generated job files and sequences of runs in scratch directories against direct library calls and a model of the directory", "small truncations; up to eight steps per directory")
prop("C21", "Numerical derivative and factorial helpers",
     "On equidistant grids the numerical derivative is the five-point formula inside (exact to degree four), the central difference next to the ends and the one-sided one at the ends, one value per point; with interpolation the derivative of power laws is kept; abscissae that do not increase are refused. The logarithms of factorials and of double factorials (2n-1)!! are exact for all (also large, array) arguments.",
     I, "all grids, functions, integer arrays", "tests use one argument", ["helper_functions.py"],
     [("num_derivative, lfac, ln_2dbl", "helper_functions.py")],
     "generated polynomials, data and integers against exact rational arithmetic", "grids to 40 points, arguments to 1e4")
prop("C22", "Data tools: interpolation, extrapolation, conversion of parameters",
     "For increasing frequencies, tabulated optical data are reproduced by linear interpolation inside of the table and continued outside with the Drude model fitted to them; a single frequency gives the Drude model of gold. Converting oscillator parameters from electron volts gives radian frequencies, term by term, and changes no list of the caller.",
     I, "all tables, frequencies, parameter lists", "not tested", ["data_inter_extrapolation.py", "materials_converter.py"],
     [("data_interp_extrap.get_drude_data, interpolate, fit, epsilon_drude", "data_inter_extrapolation.py"), ("transform", "materials_converter.py")],
     "generated tables and parameter lists against independent models", "tables to 60 rows, at least one frequency inside of the table")
prop("C23", "Known limits of the two-sphere interaction",
     "At large distances the interaction of two spheres, for each projection and in total, is that of their electric and magnetic dipole polarizabilities, at every frequency, at zero frequency for every class of materials, and at zero temperature (Casimir-Polder energy). At small gaps the free energy approaches the proximity force approximation, in exterior and interior geometry.",
     IC, "all materials and radii, sequences of distances", "limits are not tested", ["geometry.py", "scattering.py", "translation.py", "PFA.py", "thermodynamics.py"],
     [("SphereSphere.single_m, mSumme, mSumme_k0", "geometry.py"), ("e0, free_energy", "thermodynamics.py"), ("SphereSpherePFA", "PFA.py")],
     "generated sequences of distances against closed formulas of electrodynamics", "distances of 10 to 60 radii; gaps down to a quarter of the radius")


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, "pbt", "props")) if f.endswith(".py")}
    props = [p for p in P if p["id"] in have]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in props:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"})+"\n")
    man = {"version": 1, "setup_cmd": "./check.sh --build",
           "checks": [{"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": "property-based testing: "+p["_t"], "level": "exploration",
                       "level_note": p["_n"]} for p in props], "not_applicable": []}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
