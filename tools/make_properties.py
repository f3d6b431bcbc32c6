"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(('name','meaning','where'), s)) for s in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe, hook_needed=None)))
MAT='composipy/core/material.py'; PROP='composipy/core/property.py'; STR='composipy/core/strength.py'; PLATE='composipy/core/structure.py'
BK='composipy/pre_integrated_component/build_k.py'; FN='composipy/pre_integrated_component/functions.py'
IIF='composipy/pre_integrated_component/_ii_F.py'; S='composipy/pre_integrated_component/_S.py'
OU='composipy/optimize/utils.py'; OM='composipy/optimize/_maximize_buckling.py'; OW='composipy/optimize/_minimize_panel_weight.py'
PC='composipy/nastranapi/pcomp_generator.py'; VAL='composipy/utils/validators.py'

prop('C01','Ply stiffness Q_0 is the inverse of the plane-stress compliance',
 "For every accepted orthotropic material, Q_0 is the 3x3 plane-stress stiffness of the constants given to the constructor, i.e. the inverse of the compliance [[1/e1, -v12/e1, 0], [-v12/e1, 1/e2, 0], [0, 0, 1/g12]], with v21/e2 = v12/e1, and every constant reads back as given; for an isotropic material the same holds with e1 = e2 = e, v12 = v, g12 = g. "
 "An isotropic material can be built from e, v, g and thickness alone. Invariants() returns (U1..U5), the classical rotation invariants of Q_0.",
 ['inputs','histories'],'all positive moduli, all Poisson ratios in range with v12*v21 < 1, any number of reads',
 'The only test checks one glass/epoxy ply and never the isotropic class or Invariants; the identity must hold for all constants.',
 [MAT],[('OrthotropicMaterial.Q_0 / Invariants / v21','composipy/core/material.py OrthotropicMaterial'),('IsotropicMaterial','composipy/core/material.py IsotropicMaterial')],
 ['OrthotropicMaterial.Q_0','OrthotropicMaterial.Invariants()','IsotropicMaterial.Q_0'],
 [('_OrthotropicMaterial__Q_0','cached stiffness','composipy/core/material.py')])
prop('C02','Constructors accept exactly the documented parameter ranges',
 "A material constructor accepts a parameter exactly when it converts to a real number (NaN is not one) inside its closed range - moduli, thickness and allowables >= 0 (e1 = 0 apart, for which v21 is undefined), Poisson ratio in [-0.5, 0.5] - and otherwise raises ValueError; accepted values are stored as that number. "
 "A plate accepts a and b that are real numbers >= 0, real loads, and m and n that are integral numbers >= 1 (stored as ints), requires its dproperty to be a composipy property, and otherwise raises ValueError. "
 "A laminate given a list of plies whose length differs from the stacking, or a lamination-parameter dictionary without 'xiD' or 'T', is rejected with ValueError or KeyError respectively.",
 ['inputs'],'every value (number, numeric string, NaN, infinity, non-number) in every constructor parameter',
 'No test passes an invalid value to any constructor.',
 [VAL,MAT,PLATE,PROP],[('ComposipyValidator._float_number/_int_number/_is_instance',VAL),('constructors','composipy/core/*.py __init__')],
 ['OrthotropicMaterial(...)','IsotropicMaterial(...)','PlateStructure(...)','LaminateProperty(...)'])
prop('C03','Rotated ply stiffness follows the tensor transformation law',
 "For a laminate of any number of plies, any angles (degrees) and any ply materials, entry k of Q_layup is the ply stiffness Q_0 of ply k rotated by its angle: Qbar = T(theta)^-1 Q_0 R T(theta) R^-1, in closed form the classical Qbar_ij in powers of cos and sin. "
 "Entry k of T_layup is the pair (stress-type, engineering-strain-type) of transformation matrices of angle k.",
 ['inputs','histories'],'all ply counts, all real angles, all ply materials, any number of reads',
 'Tests only use multiples of 45 degrees and compare a few laminate-level numbers, so sign and coupling errors at general angles are not seen.',
 [PROP],[('LaminateProperty.Q_layup',PROP),('LaminateProperty.T_layup',PROP)],['LaminateProperty.Q_layup','LaminateProperty.T_layup'],
 [('_Q_layup','cached list',PROP),('_T_layup','cached list',PROP)])
prop('C04','Ply interfaces partition the thickness symmetrically about mid-plane',
 "For a laminate of n plies, z_position has n+1 entries running from minus half to plus half the total thickness, and consecutive entries differ by exactly the thickness of the corresponding ply, bottom ply first.",
 ['inputs'],'all ply counts and all ply thicknesses, equal or not',
 'No test reads z_position; only symmetric laminates with two thicknesses are exercised indirectly.',
 [PROP],[('LaminateProperty.z_position',PROP)],['LaminateProperty.z_position'])
prop('C05','A, B, D and ABD are the through-thickness stiffness integrals',
 "For any stacking, A, B and D equal the sums over plies of Qbar_k times (z_k+1 - z_k), (z_k+1^2 - z_k^2)/2 and (z_k+1^3 - z_k^3)/3, with z measured from the mid-plane and the first ply at the bottom; all three are symmetric. "
 "ABD is the 6x6 block matrix [[A, B], [B, D]], and B vanishes for every stacking that is symmetric about the mid-plane.",
 ['inputs'],'all ply counts, angles, ply materials and thicknesses',
 'Three tests check one symmetric three-ply laminate; unsymmetric laminates, for which B is not zero, are never checked against an independent formula.',
 [PROP],[('LaminateProperty.A/B/D/ABD',PROP)],['LaminateProperty.A','LaminateProperty.B','LaminateProperty.D','LaminateProperty.ABD'],
 [('_A,_B,_D','cached matrices',PROP)])
prop('C06','Lamination-parameter laminates reproduce the stiffness of the stacking',
 "A laminate defined by lamination parameters xiA, xiD and thickness T has A = T (U1..U5 linear in xiA), D = T^3/12 (U1..U5 linear in xiD) and B = 0, and it reports back exactly the xiA and xiD it was given. "
 "Building such a laminate from the xiA, xiD and total thickness of any single-material stacking gives the same A and D as that stacking.",
 ['inputs','histories'],'all lamination parameters, thicknesses, materials and all single-material stackings of any length and ply angles',
 'Tests compare one buckling value with 10 % tolerance for one +-45 laminate; xi2 and xi4 terms and A are never exercised.',
 [PROP,MAT],[('LaminateProperty.A/B/D lamination-parameter branches',PROP),('OrthotropicMaterial.Invariants',MAT)],
 ['LaminateProperty({...}).A/.D/.B/.xiA/.xiD'])
prop('C07','Lamination parameters of a stacking are the normalised trig moments',
 "For any stacking of positive-thickness plies, xiA is the thickness-weighted mean and xiD the (z_k+1^3 - z_k^3)-weighted mean (weights 4/T^3) of (cos 2t, sin 2t, cos 4t, sin 4t) over the ply angles t. "
 "Consequently every component lies in [-1, 1] and the third is at least 2*first^2 - 1.",
 ['inputs'],'all ply counts, real angles and ply thicknesses',
 'One 14-ply laminate of one thickness is tested.',
 [PROP],[('LaminateProperty.xiA / xiD',PROP)],['LaminateProperty.xiA','LaminateProperty.xiD'])
prop('C08','Laminate results do not depend on what was queried before',
 "Every derived quantity of a material or laminate (Q_0, Invariants, z_position, Q_layup, T_layup, A, B, D, ABD, xiA, xiD) has the same value whichever quantities were read before it, in whatever order and however often. "
 "Reading never changes the stacking, the plies or anything else the user can observe.",
 ['histories','inputs'],'all finite sequences of reads on one object, for stacking-defined and lamination-parameter-defined laminates',
 'Each test reads one quantity once from a fresh object; the lazily filled caches make this a statement about histories.',
 [PROP,MAT],[('lazy caches _Q_layup,_T_layup,_A,_B,_D,_ABD, __Q_0',PROP)],['all LaminateProperty properties'],
 [('_Q_layup,_T_layup,_A,_B,_D,_ABD','caches, None or the value of the getter',PROP)])
prop('C09','Mid-plane strains satisfy the laminate constitutive law',
 "For any laminate with non-singular ABD and any loads, the six mid-plane strains and curvatures returned by the strength analysis satisfy ABD . (eps0, kappa) = (Nxx, Nyy, Nxy, Mxx, Myy, Mxy), each load entering its own equation. "
 "The answer always reflects the loads and laminate the analysis object currently holds.",
 ['inputs','histories'],'all laminates with non-singular ABD, all six loads, all sequences of load changes and queries',
 'Tests apply Nxx alone or Mxx alone to one symmetric laminate, so four loads and bending-extension coupling are unexercised.',
 [STR,PROP],[('LaminateStrength.epsilon0',STR)],['LaminateStrength.epsilon0()'])
prop('C10','Ply strain table is the strain field at both faces of every ply',
 "For n plies calculate_strain returns 2n rows, ply by ply from the bottom of the layup, first the bottom then the top face of each ply, with its 1-based ply number, z coordinate, position label and angle. "
 "In each row (epsilonx, epsilony, gammaxy) is eps0 + z kappa at that z, and (epsilon1, epsilon2, gamma12) is the same engineering strain rotated into that ply's material axes.",
 ['inputs'],'all laminates with non-singular ABD, all loads, all plies',
 'Tests sample a handful of cells of one 4-ply laminate with atol 1e-4 against strains of 1e-3.',
 [STR],[('LaminateStrength._epsilonk/_epsilonk_123/calculate_strain',STR)],['LaminateStrength.calculate_strain()'])
prop('C11','Ply stress table is Qbar times strain and its material-axis rotation',
 "For n plies calculate_stress returns 2n rows laid out like the strain table (ply number, z, position, angle; bottom face first). "
 "In each row (sigmax, sigmay, tauxy) is Qbar_k (eps0 + z kappa) for that ply and z, and (sigma1, sigma2, tau12) is that stress rotated into the ply's material axes, which equals Q_0 times the ply's material-axis strain.",
 ['inputs'],'all laminates with non-singular ABD, all loads, all plies',
 'Tests sample six cells of one laminate with atol 100 against stresses of 1e3.',
 [STR],[('LaminateStrength._stressk/_stressk_123/calculate_stress',STR)],['LaminateStrength.calculate_stress()'])
prop('C12','Maximum-stress margins are allowable over stress minus one, per ply face',
 "Every row of the margin table refers to the same ply and face (bottom or top, bottom first) as the same row of the stress table and carries that face's label and angle. "
 "For positive allowables, margin_t1, margin_c1, margin_t2, margin_c2, margin_s equal the ply's allowable divided by the tensile (or absolute compressive, or absolute shear) material-axis stress minus one, infinite when that stress has the other sign or is zero, and 'critical' names the smallest margin.",
 ['inputs'],'all laminates, loads and positive allowables, plies with different allowables included',
 'No test calls the margin calculation.',
 [STR],[('LaminateStrength.calculate_maxstressmargin/_calculate_maxstressallowable',STR)],['LaminateStrength.calculate_maxstressmargin()'])
prop('C13','Strength queries do not interfere with each other',
 "Any sequence of strain, stress, margin and mid-plane queries on one strength object gives, for each query, the same table as a fresh object with the same laminate and loads. "
 "Queries never change the laminate, its stiffness or the loads, and after a load is reassigned every later result is that of the new load.",
 ['histories','inputs'],'all finite sequences of queries and load assignments',
 'Every test builds a fresh object and calls one query; in-place edits of shared arrays would go unseen.',
 [STR,PROP],[('in-place shear halving in _epsilonk_123',STR),('fresh arrays from _epsilonk/_stressk',STR)],['LaminateStrength methods'])
prop('C14','Pre-integrated terms are the exact integrals of the Bardell functions',
 "For all indices 0 <= i, k < 30 each of the nine pre-integrated products (function, first and second derivative against function, first and second derivative) equals the integral over [-1, 1] of the corresponding product of the i-th and k-th shape functions, within 1e-8. "
 "The shape functions themselves are the four cubic Hermite functions (value and half-slope at each end) followed by hierarchical polynomials whose value and slope vanish at both ends; the two-dimensional shape function (i, j) at (xi, eta) is f_i(xi) times f_j(eta), in the order of the index list, for indices below 50.",
 ['inputs'],'all 9 x 900 integrals, all 50 functions as polynomials, all 2500 products',
 'The tables have 5400 + 2550 literal entries; the buckling tests touch those with index < 12 and tolerate 10 % error.',
 [IIF,S,FN],[('ii_* lookup functions',FN),('tables',IIF),('fxi, sxieta',FN)],['ii_ff .. ii_fxixi_fxixi','fxi','sxieta'])
prop('C15','Bending and geometric matrices are the Ritz energy forms',
 "calc_K_KG_D returns (K, KG), m*n square, whose (p, q) entries are the second variations of the plate bending energy (matrix D) and of the load potential (Nxx, Nyy, Nxy) for the retained deflection functions p and q on an a x b plate. "
 "Both are therefore symmetric, K is independent of the loads and KG is linear in them.",
 ['inputs','configurations'],'all D matrices, a, b > 0, loads, m, n and boundary conditions',
 'Only the first eigenvalue of square plates under equal or uniaxial load is tested, within 10 %.',
 [PLATE,BK],[('calc_k33_ijkl, calc_kG33_ijkl',BK),('PlateStructure.calc_K_KG_D',PLATE)],['PlateStructure.calc_K_KG_D()'])
prop('C16','Full ABD plate matrices are the coupled Ritz energy forms',
 "calc_K_KG_ABD returns (K, KG), 3mn square, ordered (u, v, w), where K is the second variation of the laminated-plate strain energy with membrane (A), coupling (B) and bending (D) terms for the retained functions of each displacement on an a x b plate, and KG has the load potential in its w block and zeros elsewhere. "
 "K is therefore symmetric for every laminate and every aspect ratio.",
 ['inputs','configurations'],'all laminates (B and the 16/26 terms included), a, b > 0, loads, m, n, boundary conditions',
 'No test calls calc_K_KG_ABD.',
 [PLATE,BK],[('calc_K11_ijkl .. calc_k33_ijkl',BK),('PlateStructure.calc_K_KG_ABD',PLATE)],['PlateStructure.calc_K_KG_ABD()'])
prop('C17','Boundary conditions select exactly the admissible shape functions',
 "For every constraint specification the u, v and w bases are the m (along x) by n (along y) lowest-index shape functions from which, on each edge, precisely the one carrying the edge value is removed when that translation (TX for u, TY for v, TZ for w) is held and the one carrying the edge slope when that rotation (RX, RY, RZ) is held. "
 "'PINNED' and 'CLAMPED' and the per-edge names ('free', 'pinned'/'simply_supported', 'clamped'/'fixed', in any letter case) mean the corresponding explicit lists, and the constraint object passed in is not modified.",
 ['inputs','configurations'],'all 2^24 edge-by-edge constraint lists, all names, all m and n',
 'Tests use only PINNED and CLAMPED on all edges with m = n = 10 or 7, where the u, v and w bases coincide.',
 [PLATE],[('PlateStructure._compute_constraints',PLATE)],['PlateStructure.su_idx / sv_idx / sw_idx after assembling matrices'],
 [('su_idx, sv_idx, sw_idx','retained (i, j) pairs',PLATE)])
prop('C18','Buckling analysis returns load factors, the smallest positive one first',
 "Each eigenpair (lambda, c) returned by buckling_analysis satisfies (K + lambda KG) c = 0 for the plate's bending and geometric matrices, and when the loads can buckle the plate the first eigenvalue is the smallest positive load factor. "
 "This holds for loads of any magnitude, so scaling all loads by s > 0 divides the load factors by s.",
 ['inputs','configurations'],'all plates, boundary conditions and load magnitudes with positive definite K and m*n >= 4',
 'Tests use unit loads only.',
 [PLATE],[('PlateStructure.buckling_analysis (scipy eigsh)',PLATE)],['PlateStructure.buckling_analysis()'])
prop('C19','Mode-shape plot shows the computed deflection on the plate',
 "plot_eigenvalue(nth, ngridx, ngridy) draws a surface whose height at every grid point is the sum over retained deflection functions of the nth eigenvector's coefficients times the shape functions at that point, with x running over [0, a] and y over [0, b]. "
 "It works for any grid sizes, equal or not, and runs the buckling analysis first when no eigenvector is available.",
 ['inputs','histories'],'all plates, modes and grid sizes',
 'Nothing tests plotting.',
 [PLATE,FN],[('PlateStructure.plot_eigenvalue',PLATE),('sxieta',FN)],['arguments of Axes3D.plot_surface'])
prop('C20','Buckling maximisation optimises the true load over the feasible region',
 "maximize_buckling_load hands the optimiser minus the critical load factor of the a x b panel with bending lamination parameters (xi1, 0, xi3, 0), thickness T, the given material, boundary conditions and discretisation, under the given loads divided by the largest absolute load. "
 "The admissible set is -1 <= xi1, xi3 <= 1 with xi3 >= 2|xi1| - 1 (penalty on) or xi3 >= 2 xi1^2 - 1 (penalty off) up to 1e-4, and the former set lies inside the latter.",
 ['inputs','configurations'],'all panels, materials, loads with a non-zero component, all (xi1, xi3)',
 'One panel under pure Nxx with symmetric optimum is tested within 10 %.',
 [OM,OU],[('maximize_buckling_load',OM),('Ncr_from_lp, normalize_critical_load, penalty_g1/g2, natural_constraint_g',OU)],['arguments of scipy.optimize.minimize','maximize_buckling_load(...)'])
prop('C21','Weight minimisation enforces that the panel carries the applied load',
 "minimize_panel_weight minimises T^3 over (T, xi1, xi3) subject to critical load factor(T, xi1, xi3) >= largest absolute load, the factor being taken under the given loads divided by that largest absolute load, to xi3 >= 2|xi1| - 1 up to 1e-4, and to T in [0.001, 1e6], xi1, xi3 in [-1, 1]. "
 "Hence at any feasible point the panel does not buckle under the loads actually given.",
 ['inputs','configurations'],'all panels, materials, loads with a non-zero component, all (T, xi1, xi3)',
 'The only test is flaky and takes minutes, so it is not in the reliable suite.',
 [OW,OU],[('minimize_panel_weight',OW),('Ncr_from_lp, normalize_critical_load',OU)],['arguments of scipy.optimize.minimize'])
prop('C22','Stacking notation expands to the sequence it denotes',
 "For a string '[' items ']' with items separated by '/', optionally followed by s (or S), build_sequence returns the concatenation of the items' expansions followed, when s is present, by its reverse. "
 "An item is a unit - an angle with optional repeat count _k or _{k}, expanding to the angle k times (once by default), with a \\pm prefix to k plies alternating +angle, -angle, ... - or a parenthesised block of units (u1/u2/...)_k repeating the concatenated units k times; spaces around units do not matter.",
 ['inputs'],'all strings of the notation, any number of items, units per block, repeat counts and angles',
 'Nothing tests composipy.nastranapi.',
 [PC],[('build_sequence, _build_stack_unit, _build_pm_unit',PC)],['composipy.nastranapi.build_sequence'])
prop('C23','PCOMP card lists every ply once, in order, with its own data',
 "build_pcomp writes a PCOMP header with the given pid and z0 followed by continuation lines that list, two plies per line and in sequence order, each ply's material id, thickness, angle and stress-output flag, comma separated, for an even or odd number of plies. "
 "Scalar material ids and thicknesses apply to every ply, lists must match the number of plies or ValueError is raised, and sout FIBER marks exactly the first and last ply YES while YES and NO mark all plies alike.",
 ['inputs'],'all ply counts >= 1, list or scalar data',
 'Nothing tests composipy.nastranapi.',
 [PC],[('build_pcomp, _convert_to_list, _convert_sout',PC)],['composipy.nastranapi.build_pcomp'])
prop('C24','Equality of materials and laminates means equal defining data',
 "Two orthotropic (or two isotropic) materials compare equal exactly when all their elastic constants, thickness and allowables are equal, whatever their names; comparing a material with something that is not a material of its class raises ValueError. "
 "Two laminates compare equal exactly when they have the same plies in the same order with the same angles or, when defined by lamination parameters, the same parameters, thickness and ply material.",
 ['inputs'],'all pairs of materials and laminates, of any number of plies',
 'No test compares objects.',
 [MAT,PROP],[('OrthotropicMaterial.__eq__, IsotropicMaterial.__eq__',MAT),('LaminateProperty.__eq__',PROP)],['==, != on materials and laminates'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
