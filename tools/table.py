# property table, read by mkmeta.py
NOT_APPLICABLE = []

prop('U01', 'Velocities, moduli and elastic constants convert consistently',
     'Velocities computed from bulk modulus, shear modulus (GPa) and density (g/cm3) satisfy rho*Vp^2 = K + 4G/3 and rho*Vs^2 = G in '
     'consistent units, and converting velocities back returns the original moduli. Poisson ratio and Lame constant are those of the same '
     'solid, with the Poisson ratio between -1 and 1/2. Arrays are treated element by element and no argument is modified.',
     'all moduli, densities and velocities of rocks and fluids, scalars or arrays of any of the sizes explored',
     'test_utils compares one point per function; the round trip and the array behaviour are not tested.',
     [U], ['V', 'M_from_V', 'poi', 'lame'])
prop('U02', 'Stiffness and compliance matrices have the symmetry they are written for',
     'Matrices written for VTI, HTI, orthorhombic and isotropic media and for VTI compliances are symmetric 6x6 Voigt matrices with every given '
     'constant in its place, the dependent constants fixed by the symmetry (C12=C11-2C66, C23=C33-2C44, S66=2(S11-S12)) and zeros elsewhere. '
     'Crack porosity is 4*pi/3 times aspect ratio times crack density.',
     'all elastic constants', 'one matrix of each kind is compared at one point.',
     [U], ['write_VTI_matrix', 'write_HTI_matrix', 'write_matrix', 'write_iso', 'write_VTI_compliance', 'crack_por'])
prop('A01', 'Phase velocities of VTI and HTI media solve the Christoffel equation',
     'For every propagation angle the three velocities returned for a VTI or HTI stiffness matrix are the square roots of the eigenvalues of the '
     'Christoffel matrix over density, P being the fastest of the coupled pair, and angles are in degrees. Velocities measured at 0, 45 and 90 '
     'degrees in a VTI medium are converted back to exactly its stiffness matrix. An array of angles gives the velocities of each angle.',
     'all stable stiffness matrices, densities and angles', 'tests check single matrices at a few angles.',
     [AN, U], ['vel_azi_VTI', 'vel_azi_HTI', 'v_to_c_VTI'])
prop('A02', 'Thomsen and Tsvankin parameters describe the given stiffnesses',
     'The weak-anisotropy parameters epsilon, gamma, delta (VTI) and their seven orthorhombic counterparts are the defined functions of the '
     'stiffnesses, vanish for isotropic media, and for a VTI medium the orthorhombic set reduces to the VTI set. The weak-anisotropy velocities '
     'are the stated functions of the angle in degrees: on the symmetry axis they equal the axial velocities. Array angles act element by element.',
     'all stiffnesses, densities and angles', 'one VTI medium and one orthorhombic medium are tested.',
     [AN], ['Thomsen', 'Thomsen_Tsvankin'])
prop('A03', 'Backus averaging is exact, order-free and consistent with logs',
     'The five effective constants of a stack of isotropic layers are the Backus averages: independent of the order of the layers, of splitting a '
     'layer, of the scale of the thicknesses, equal to the layer for identical layers and isotropic for equal shear moduli. The log version '
     'weights each sample with its depth interval, also for irregular sampling, and averages density with the same weights. Inputs are not modified.',
     'all layer moduli, thicknesses and depth samplings, 1 to 4 layers', 'one two-layer stack is tested; the log version is not.',
     [AN], ['Backus', 'Backus_log'], note='Layer count bounded by 3 (quick) or 4 (thorough).')
prop('A04', 'Rotating a stiffness matrix is the Bond transformation about the chosen axis',
     'Rotation of a stiffness matrix by an angle in degrees about axis 3 or axis 1 is M C M^T with the Bond matrix of that axis: the identity '
     'for zero angle, exact exchange of axes for quarter turns, and symmetric results. Axis 3 is the default.',
     'all TI stiffness matrices, all angles, both axes', 'one rotated matrix is compared.',
     [AN], ['Bond_trans'],
     note='Known finding: the off-diagonal block of the Bond matrix lacks the factor 2 (pinned by the test suite).')

prop('F01', 'Gassmann saturation obeys its relation, its limits and its bounds',
     'The saturated bulk modulus follows Gassmann\'s relation, the shear modulus is unchanged, a fluid never softens the frame, a stiffer fluid '
     'never gives a softer rock and the result never exceeds the mineral modulus. Velocities of the saturated rock use the same moduli and the '
     'mass-balance density. Arrays act element by element and inputs are untouched.',
     'all dry moduli, mineral and fluid moduli and porosities', 'one state is tested.',
     [FL], ['Gassmann', 'vels'])
prop('F02', 'Fluid substitution is path independent and agrees with the dry route',
     'Substituting one fluid by another reaches the same state as drying and re-saturating with Gassmann, substitution by the same fluid changes '
     'nothing, going back restores the rock and intermediate fluids do not matter. The velocity form updates density by mass balance, keeps the '
     'shear modulus and uses the same modulus update; the P-modulus approximation is the same map applied to P-wave moduli.',
     'all saturated moduli or velocities, mineral and fluid moduli, porosities', 'each function is compared at one point.',
     [FL], ['Gassmann_sub', 'Gassmann_vels', 'Gassmann_approx'], over=('inputs', 'histories'))
prop('F03', 'Brie mixing stays between the end members for every exponent',
     'The mixed fluid modulus is Kgas + (Kw-Kgas) Sw^e: the gas modulus at zero water saturation, the water modulus at full saturation, linear '
     'for exponent 1, monotone in saturation, never outside the end members and softer for larger exponents. Arrays of saturations act element by element.',
     'all fluid moduli, saturations in [0,1] and exponents >= 1', 'one saturation is tested.',
     [FL], ['Brie'])
prop('F04', 'Anisotropic fluid substitution (Brown-Korringa) is exact and invertible',
     'The saturated compliance of an anisotropic frame follows the Brown-Korringa relation with an isotropic mineral, drying a saturated '
     'compliance returns the dry one, an isotropic frame gives Gassmann and shear compliances of a VTI or orthorhombic rock are untouched. '
     'The stiffness route equals inverting, drying with the first fluid, saturating with the second and inverting again.',
     'all VTI/orthorhombic compliances, mineral and fluid moduli, porosities', 'one matrix is tested.',
     [FL], ['Brown_Korringa_dry2sat', 'Brown_Korringa_sat2dry', 'Brown_Korringa_sub'])
prop('F05', 'High-frequency Biot and Geertsma-Smit limits follow from the same constants',
     'The fast, slow and shear velocities in the high-frequency limit solve Biot\'s quadratic with the inertial coupling given by tortuosity, the '
     'fast one not below the slow one. The Geertsma-Smit high-frequency velocities are their stated closed forms and the dispersion formula runs '
     'from the low-frequency to the high-frequency velocity through the Biot characteristic frequency.',
     'all frame, mineral and fluid moduli, densities, porosities, tortuosities and frequencies', 'one sandstone is tested per function.',
     [FL], ['Biot_HF', 'Geertsma_Smit_HF', 'Geertsma_Smit_LF'])
prop('F06', 'Biot velocities and attenuations solve the dispersion relation at each frequency',
     'For every frequency the fast and slow P-wave and the S-wave velocities are the real parts, and the inverse quality factors the ratios of '
     'imaginary to real part, of the roots of Biot\'s dispersion relations with the viscodynamic operator of the pore size. Each frequency of an '
     'array is treated as if it were alone, in all three regimes of the operator.',
     'all frame, mineral, fluid and pore parameters; frequencies in every regime', 'one rock and one frequency array are tested.',
     [FL], ['Biot'], note='Bessel functions are uninterpreted (same function on both sides).')
prop('F07', 'Squirt: high-frequency unrelaxed and saturated moduli follow Mavko-Jizba',
     'The Mavko-Jizba unrelaxed bulk modulus is the high-pressure frame saturated by Gassmann, the shear compliance is the dry one lowered by 4/15 of '
     'the change of bulk compliance between dry and high-pressure rock, and velocities follow from them with the saturated density. The anisotropic '
     'squirt compliances are the stated closed form and keep the bulk compressibility of the high-pressure rock.',
     'all dry, high-pressure, mineral and fluid moduli and porosities', 'one state is tested.',
     [FL], ['Mavko_Jizba', 'Squirt_anisotropic'])
prop('F08', 'Patchy saturation: identical fluids give Gassmann without loss',
     'Velocity and attenuation of partially saturated rock with spherical gas patches follow from the White-Dutta-Ode complex bulk modulus; if '
     'both fluids are the same the modulus is Gassmann\'s and there is no attenuation, whatever patch size and frequency. Array frequencies '
     'act element by element.',
     'all rock, fluid and patch parameters, all frequencies', 'its single test compares one frequency array (and fails on the base tree).',
     [FL], ['White_Dutta_Ode'])

prop('E01', 'Voigt, Reuss, Hill and critical-porosity averages are exact and ordered',
     'For any number of phases the Voigt average is the arithmetic, the Reuss average the harmonic and Hill their mean, so that Reuss <= Hill <= '
     'Voigt, all lie between the softest and stiffest phase and the order of phases is irrelevant; one row of fractions per sample gives one '
     'result per sample. Critical-porosity moduli fall linearly from mineral to zero at the critical porosity, and the suspension at critical '
     'porosity is the Reuss average (volume average for densities).',
     'all volume fractions and moduli, 1 to 4 phases', 'one mixture is tested.',
     [EMF], ['VRH', 'cripor', 'cripor_reuss'], note='Number of phases bounded by 4 (quick) or 5 (thorough).')
prop('E02', 'Hashin-Shtrikman bounds are the bounds: ordered, symmetric, exact at end points',
     'The upper and lower bounds of a two-phase mixture are the Hashin-Shtrikman expressions for phase 1 and phase 2 as the enclosing phase. They '
     'equal the phases at the end points and for zero contrast, exchanging the phases exchanges the bounds, Reuss <= lower <= upper <= Voigt, and a '
     'fluid phase gives the suspension modulus and zero shear stiffness. Arrays act element by element.',
     'all fractions in [0,1] and all moduli, including equal moduli and a fluid phase', 'one upper bound is tested.',
     [EMF], ['HS'])
prop('E03', 'Spherical-inclusion estimates: dilute, iterated and average schemes agree',
     'Pore and inclusion models for spheres (dilute, dilute with prescribed stress or strain, self-consistent iterations, Mori-Tanaka '
     'average) follow the sphere strain concentrations: no inclusions returns the matrix, each further iteration is one substitution '
     'into the self-consistency equations started from the matrix, and the average equals the Hashin-Shtrikman expression of its background. Arrays of '
     'porosities act element by element; several minerals give a mineral-by-porosity table.',
     'all moduli, porosities and fractions; iteration counts within the bound', 'one point per function is tested.',
     [EMF], ['Swiss_cheese', 'SC', 'SC_dilute', 'SC_flex', 'MT_average'],
     note='Iteration counts explored: 0,1,2,6,12,30 and 0,1,2,3,10,30.')
prop('E04', 'Crack models: no cracks means no change, cracks soften, roots are roots',
     'Dilute and self-consistent (dry) crack models give the stated functions of crack density, return the mineral without cracks and never '
     'stiffen it. For saturated cracks the returned moduli are those of a root of the coupled self-consistent equations for the effective '
     'Poisson ratio and saturation factor.',
     'all mineral and fluid moduli, crack densities and aspect ratios', 'one crack density is tested.',
     [EMF], ['Dilute_crack', 'OConnell_Budiansky', 'OConnell_Budiansky_fl', 'OC_R_funcs'],
     note='fsolve is replaced by a contract: returned values are a root of the equations the code passes to it.')
prop('E05', 'Hudson cracks: every crack arrangement is the sum of its crack sets',
     'First- and second-order stiffnesses of aligned penny-shaped cracks (axis 3 or axis 1) are Hudson\'s; three orthogonal sets are the '
     'superposition of three aligned sets; a cone of normals is the azimuthal average of tilted sets and random orientation is the '
     'average over all directions. Without cracks every arrangement gives the isotropic host.',
     'all host and filling moduli, aspect ratios, crack densities and cone angles', 'one parameter set per function is tested.',
     [EMF], ['hudson', 'hudson_ortho', 'hudson_cone', 'hudson_rand'],
     note='Known findings: C66 of the cone and the shear modulus of random cracks deviate (pinned by the test suite).')
prop('E06', 'Eshelby-Cheng stiffness is the dilute inclusion result, isotropic without pores',
     'The five constants of rock with aligned fluid-filled ellipsoids are the dilute Eshelby result: linear in porosity, isotropic without pores, '
     'shear constants independent of the fluid. The matrix form contains the same five constants in VTI symmetry.',
     'all host moduli, fluid moduli, aspect ratios in (0,0.9] and porosities', 'one point is tested.',
     [EMF], ['Eshelby_Cheng'], note='Known finding: C11 correction (pinned by the test suite).')
prop('E07', 'Strain concentration factors: unit without contrast, scalar form = array form',
     'The factors P and Q of spheroidal inclusions are Berryman\'s for oblate, spherical and prolate shapes, equal 1 for an inclusion '
     'identical to the matrix and do not change when all moduli are scaled. The array form gives for every mixture of shapes the values '
     'of the scalar form and leaves its arguments unchanged.',
     'all moduli, aspect ratios in each class, mixtures of up to three shapes', 'one set of shapes is tested.',
     [EMF], ['PQ', 'PQ_vectorize'], note='Known finding: aspect ratios above 1 use 1/cosh (pinned by the test suite).')
prop('E08', 'Self-consistent and differential media solve their defining equations',
     'The self-consistent moduli of a mixture of spheroids are a root of Berryman\'s balance equations, started from the mean moduli; '
     'the differential medium follows its differential equations from the host moduli over porosities from zero to the target in '
     'steps of 0.01. Inputs are not modified.',
     'all phase moduli, volume fractions, aspect ratios', 'one mixture is tested; the DEM test fails on the base tree.',
     [EMF], ['Berryman_sc', 'Berryman_func', 'DEM', 'Berryman_DEM'],
     note='fsolve and odeint are replaced by contracts on the equations, start values and grid the code passes to them.')
prop('G01', 'Hertz-Mindlin and Walton packs follow contact theory at every stress',
     'The dry sphere-pack moduli satisfy K^3 = Cn^2(1-phic)^2 G0^2 sigma/(18 pi^2 (1-nu)^2) with sigma in MPa and moduli in GPa, and '
     'G = 3/5 K (2+3f-nu(1+3f))/(2-nu), f=1 being full friction and f=0 slip. Both are positive, vanish without stress, double when '
     'stress grows eightfold, and K does not depend on friction. Walton gives the same moduli as Hertz-Mindlin for every f. Arrays act element by element.',
     'all mineral moduli, porosities, coordination numbers, stresses and friction factors', 'one stress and one friction factor are tested.',
     [GMF], ['hertzmindlin', 'Walton'])
prop('G02', 'Soft and stiff sand join pack and mineral by modified HS bounds',
     'The soft-sand (stiff-sand) moduli are the modified lower (upper) Hashin-Shtrikman bound between the mineral at zero porosity and the '
     'Hertz-Mindlin pack at critical porosity, with porosity scaled by the critical porosity. They equal the mineral and the pack at the ends, '
     'soft never exceeds stiff while the pack is softer than the mineral, and both stay between pack and mineral. Arrays act element by element.',
     'all minerals, packs and porosities up to critical', 'five porosities of one sand are tested.', [GMF], ['softsand', 'stiffsand'])
prop('G03', 'Contact cement follows the Dvorkin-Nur statistical solution in both schemes',
     'Contact-cement moduli are Cn(1-phic)/6 (Kc+4Gc/3) Sn and 3/5 K + 3/20 Cn(1-phic) Gc St with the published normal and shear '
     'coefficients of Lambda_n, Lambda_tau and the grain Poisson ratio; the cement radius follows scheme 1 (fourth root, contacts) or '
     'scheme 2 (square root, grain surface) of the cement volume phic-phi. Without cement the schemes agree. Results scale with the unit of the '
     'moduli and arrays act element by element.',
     'all grain and cement moduli, cement volumes, both schemes', 'one scheme at one porosity range is tested.', [GMF], ['contactcement'])
prop('G04', 'Constant cement and MUHS interpolate from the cemented pack to mineral',
     'Below the well-sorted cemented end point the constant-cement model (modified lower bound) and MUHS (modified upper bound) interpolate '
     'between the contact-cement moduli at phi_b and the mineral at zero porosity, reach both end points exactly and satisfy lower <= upper while the cemented pack is '
     'softer than the mineral. Arrays of porosity act element by element.',
     'all minerals, cements, end-point porosities and porosities', 'five porosities of one rock are tested.', [GMF], ['constantcement', 'MUHS'])
prop('G05', 'Patchy cement mixes cemented and uncemented rock at any connectivity',
     'At critical porosity the patchy cement model is the Hashin-Shtrikman mixture of fraction f of cemented rock (contact cement up to v_ci, '
     'modified upper bound beyond) with the Hertz-Mindlin pack: stiff mode hosts in cemented rock, soft mode in the pack. f=0 and f=1 give '
     'soft sand and cemented sand; lower porosities follow the modified lower bound to the mineral. The variable model interpolates stiff '
     '(alpha=0) and soft (alpha=1). The diluting law is k(1-sigma/sigma0)^m and zero beyond sigma0.',
     'all minerals, cements, fractions, cement volumes, both modes and schemes', 'one mode and branch of pcm is tested; vpcm and diluting are not.',
     [GMF], ['pcm', 'vpcm', 'diluting'])
prop('G06', 'Sand-shale porosity and moduli mix correctly between their end members',
     'Thomas-Stieber dispersed porosity is the larger of sand pores minus shale grains and shale pores; the laminated line is the volume '
     'average and never below it. Silty shale and shaly sand are Hashin-Shtrikman mixtures with shale (sand) as host, equal to the pure '
     'components at the ends and between them. Arrays act element by element.',
     'all porosities, shale contents and moduli', 'one Thomas-Stieber diagram is tested; the mixtures are not.',
     [GMF], ['ThomasStieber', 'silty_shale', 'shaly_sand'])
prop('G07', 'Digby contact radius solves its cubic equation at every stress',
     'The contact radius behind the Digby moduli is b^2 = d^2 + a^2 with d the real root of d^3 + 3/2 a^2 d = 3 pi (1-nu) sigma/(2 Cn (1-phi) G0). '
     'Without initial bonding the moduli are those of the frictionless Hertz pack, without stress those of the bonded pack. One value is '
     'returned per stress, also for arrays and at zero stress.',
     'all minerals, packs, stresses and bond radii', 'one stress is tested; zero stress and stress arrays (documented) are not.', [GMF], ['Digby'])
prop('G08', 'Stress-induced anisotropy of a sphere pack is a TI tensor of its strains',
     'For hydrostatic plus uniaxial strain the stiffness is a symmetric 6x6 VTI matrix built from the integrals I0, I2, I4 of the strain ratio, '
     'the axial and lateral stresses follow the chosen strain path (together, uni_iso, iso_uni; together by default), and scaling all strains by 4 doubles the stiffnesses and '
     'multiplies the stresses by 8.',
     'all minerals, packs and compressive strains, all three paths', 'one strain pair on one path is tested.', [GMF], ['johnson'],
     note='Known findings: logarithm in I0 and the expression of C11 (both pinned by the test suite).')

prop('B01', 'Water and brine follow Batzle-Wang everywhere in pressure and salinity',
     'Velocity and density of water and brine are the published Batzle-Wang polynomials of temperature (degrees C), pressure (MPa) and '
     'salinity (weight fraction), the bulk modulus in GPa is density times velocity squared, brine without salt is water, and above the '
     'calibrated pressure the same fit is used. Arrays act element by element and arguments are not modified.',
     'all temperatures, pressures and salinities', 'one state is tested per function.',
     [BWF], ['v_water', 'rho_K_water', 'v_brine', 'rho_K_brine'])
prop('B02', 'Gas and CO2 follow one equation of state with a consistent derivative',
     'Gas density is 28.8 G P/(Z R T) with the Batzle-Wang compressibility factor Z of the pseudo-reduced pressure and temperature, the '
     'returned derivative is the pressure derivative of that Z, and the adiabatic modulus in GPa is P gamma/(1 - p/Z dZ/dp)/1000. CO2 uses the same equations '
     'with its critical point. Arrays act element by element.',
     'all pressures, temperatures and gravities where Z is positive', 'one state is tested per function.',
     [BWF], ['pseudo_p_t', 'dz_dp', 'rho_K_gas', 'rho_K_co2'],
     note='Known finding: critical temperature of CO2 (pinned by the test suite).')
prop('B03', 'Dead, live and gas-saturated oil are consistent with one another',
     'Density and modulus of dead oil follow Batzle-Wang; live oil uses the volume factor, pseudo-density and density of the dissolved gas; '
     'when no gas-oil ratio is given the maximum dissolved amount at that pressure and temperature is used, exactly as if it were passed. '
     'The modulus is density times velocity squared in GPa. Arrays act element by element.',
     'all pressures, temperatures, oil densities, gas gravities and gas-oil ratios', 'one state is tested per function.',
     [BWF], ['rho_K_oil', 'rho_K_go'])
prop('B04', 'CO2-brine mixtures average density and mix moduli by the chosen law',
     'Mixture density is the volume average of brine and CO2; without a Brie exponent the modulus is the isostress average, with one it is '
     'K_CO2 + (K_brine-K_CO2)(1-S)^e, S being the CO2 saturation. Pure brine and pure CO2 are reproduced at the ends, the flag selects the '
     'CO2 or the hydrocarbon gas equations (CO2 by default). Arrays act element by element.',
     'all temperatures, pressures, salinities, saturations; exponents 1, 2, 2.5, 3 (40 thorough)', 'one mixture is tested.',
     [BWF], ['co2_brine'], note='The Brie exponent is enumerated.')

prop('V01', 'Aki-Richards reflectivity is a consistent function of contrasts and angle',
     'PP reflectivity is intercept plus M sin^2 plus N tan^2 of the angle in degrees and PS reflectivity the Aki-Richards expression; the returned '
     'intercept and gradient belong to the same PP curve. At normal incidence PP equals the intercept and PS is zero, equal layers do '
     'not reflect, exchanging the layers changes the sign of PP. Arrays of layers and angles give one row per interface and one column per angle.',
     'all velocities with Vs < Vp, densities and angles below 80 degrees', 'the test of Aki_Richards compares but asserts nothing.',
     [AV], ['Aki_Richards'], note='Tables bounded by 2x2 (quick) or 3x2 (thorough).')
prop('V02', 'AVO attributes agree with Aki-Richards and vanish without contrast',
     'Intercept and second gradient of the AVO attributes are exactly those of Aki-Richards, the first gradient is Shuey\'s in Poisson ratios, '
     'and the two PS terms are the published ones. All five are finite also where the impedance contrast is zero and vanish for equal '
     'layers. Arrays act element by element.',
     'all velocities with Vs < Vp and densities', 'three interfaces are tested.', [AV], ['AVO_abe', 'Aki_Richards'])
prop('V03', 'HTI reflectivity follows Ruger for every azimuth and angle',
     'Azimuthal PP reflectivity of HTI media is Ruger\'s: impedance contrast at normal incidence for every azimuth, anisotropic gradient and '
     'far-offset terms weighted by powers of cos and sin of the azimuth (degrees). Exchanging the media changes its sign, equal media do not reflect. '
     'The result has one row per azimuth and one column per angle; inputs are unchanged.',
     'all pairs of HTI stiffness matrices, angles and azimuths', 'the test of AVO_HTI compares but asserts nothing.',
     [AV], ['AVO_HTI'], note='Tables bounded by 2x2, 1x3 and 3x1.')
prop('V04', 'Orthorhombic, HTI and isotropic reflectivities agree where they overlap',
     'The orthorhombic reflectivities in the two symmetry planes follow Ruger; exchanging the media changes the sign, equal media do not reflect. '
     'For isotropic media both planes and the HTI formula at every azimuth agree, and an HTI medium in its symmetry planes gives the '
     'orthorhombic result. Arrays of angles and media act element by element.',
     'all media and angles', 'AVO_ortho is not tested.', [AV], ['AVO_ortho', 'AVO_HTI'])
prop('V05', 'Zoeppritz reflectivity has the exact normal-incidence limit and form',
     'PP and PS reflectivities are the Aki-Richards closed form of the Zoeppritz equations; at normal incidence PP is the impedance contrast '
     'over the sum and PS is zero. Arrays of angles and interfaces act element by element.',
     'all precritical angles and layers', 'one interface is tested.', [AV], ['zoeppritz'],
     note='Known finding: the ray parameter takes the angle in degrees and H uses the wrong shear angle (pinned by the test suite).')
prop('V06', 'Elastic impedances have the published exponents and normalisation',
     'The five elastic impedances are products of powers of Vp, Vs and density with exponents depending on angle (degrees) and the constant ratio '
     'SP; with normalisation (the default) the logs are divided by their means and the result multiplied by mean acoustic or shear impedance. At normal '
     'incidence PP is the acoustic impedance. One row per sample, one column per angle; logs are not modified.',
     'all logs, angles below the shear critical angle, ratios', 'one log is tested with normalisation only.',
     [AV], ['EI_ref'], note='Tables bounded by 2x2 (quick) or 3x2 (thorough).')

prop('P01', 'Grain and pore geometry permeabilities obey their laws and limits',
     'Kozeny-Carman, its percolation form, Panda-Lake (with and without cement), Revil, Fredrich and Bernabe permeabilities follow their published '
     'formulas: proportional to the square of the length, not negative, growing with porosity, zero at the percolation threshold. The '
     'percolation form without threshold and Panda-Lake for equal grains and tortuosity 2.5 reduce to Kozeny-Carman. Arrays act element by element.',
     'all porosities, grain sizes and shape parameters', 'one Kozeny-Carman value of 1e-12 is tested with absolute tolerance 1e-6.',
     [PE], ['Kozeny_Carman', 'Kozeny_Carman_Percolation', 'Panda_Lake', 'Panda_Lake_cem', 'Revil', 'Fredrich', 'Bernabe'])
prop('P02', 'Log and regional permeability correlations keep their published form',
     'Owolabi (oil and gas sand), Tixier, Timur, Coates, Coates-Dumanoir and Bloch correlations have the published coefficients and exponents in '
     'porosity and irreducible saturation, or sorting, rigid grains (percent) and grain size. Arrays act element by element.',
     'all porosities, saturations, sortings and grain sizes', 'none of these is tested.', [PE], ['Owolabi', 'Perm_logs', 'Bloch'])

prop('M01', 'Velocity-depth trends give one value per depth, in the order given',
     'Each velocity trend (m/s against depth in m) is the published line, curve or segmented line and grows with depth, for one depth and for '
     'arrays of depths in any order: element i of the result belongs to depth i. Japsen has no value (NaN) from 5300 m. Depths are not modified.',
     'all depths below 6700 m, arrays of up to three depths in any order', 'none of these is tested.',
     [EP], ['yu_segment_trend', 'Scherbaum', 'Storvoll', 'Hillis', 'Japsen', 'hjelstuen'])
prop('M02', 'Porosity-depth trends are the published curves at every depth',
     'Ehrenberg and Ramm porosity trends are fractions falling linearly with depth in m (Haltenbanken line by default), the segmented Ramm trend '
     '(percent) is the lower of mechanical and chemical compaction at each depth, and Sclater-Christie returns the depth (km) at which its '
     'exponential has the porosity. Arrays act element by element, in any order.',
     'all depths and porosities', 'none of these is tested.', [EP], ['ehrenberg', 'ramm_porosity', 'ramm_porosity_segment', 'Sclater'])
prop('M03', 'Empirical rock relations keep their end points and coefficients',
     'Krief moduli are the mineral moduli times (1-phi)^(3/(1-phi)) with the consistent Lame constant; Greenberg-Castagna shear velocity is '
     'the mean of arithmetic and harmonic sand-shale averages and lies between shale and sand; Han, St Peter (sample 1 by default) and the coordination '
     'number have the published coefficients. Arrays act element by element.',
     'all porosities, clay contents, velocities and pressures', 'krief, esti_VS and Cp are tested at a few points, han and St Peter not.',
     [EP], ['krief', 'esti_VS', 'han', 'empirical_StPeter', 'Cp'])

QF = 'rockphypy/QI.py'
prop('Q01', 'Matrix of a cementing sandstone keeps its solid fractions',
     'matrix_modulus is the Hill average, den_matrix the volume average of shale, grain and cement, the solid fractions being vsh/(1-phi), '
     '(1-phi_c-vsh)/(1-phi) and (phi_c-phi)/(1-phi) and adding up to one. Without shale, without cement (phi=phi_c) and for equal minerals they '
     'reduce accordingly. Arrays of porosities give one value each and are not modified.',
     'all porosities up to critical and shale volumes', 'QI is not tested.', [QF], ['matrix_modulus', 'den_matrix'])
prop('Q02', 'Screening bounds are the friable, contact-cement and increasing-cement rocks',
     'screening returns 100 porosities from 1e-7 to phi_c with P and S velocities (m/s) of the Gassmann-saturated friable sand (everywhere), increasing '
     'cement model (up to phib only) and contact cement model (from phib only, with the matrix modulus and density of the cemented matrix); elsewhere NaN.',
     'all minerals, fluids, stresses and end points', 'QI is not tested.', [QF], ['screening'],
     note='The model functions (GM.softsand, contactcement, MUHS, Fluid.Gassmann) are uninterpreted here: G04-G06 and F01 decide them. Velocities compared at 6 of the 100 porosities per position of phib.')
prop('Q03', 'Constant-cement velocities belong to the Gassmann-saturated constant-cement rock',
     'cal_v_const and cst_vels are the P and S velocities (m/s) of the brine-saturated constant-cement model; cst_vels uses the density of the cemented '
     'matrix and has no value (NaN) above the end-point porosity; cal_v_const takes the coordination number given, or that of the critical porosity. '
     'Porosities are not modified.',
     'all minerals, fluids, cement volumes and porosities', 'QI is not tested.', [QF], ['cal_v_const', 'cst_vels'],
     note='GM.constantcement and Fluid.Gassmann are uninterpreted here: G05 and F01 decide them.')
prop('Q04', 'Cement volume is read from the constant-cement lines',
     'estimate_cem gives zero at and below the line of the first seed (0), 0.1 at and above that of the last (0.1) and in between interpolates linearly '
     'in velocity between the neighbouring lines; a datum on a line gets the volume of the line. One estimate per datum, in order, independent of the '
     'others; inputs are not modified; the coordination number given is the one used.',
     'all logs, seeds (array or list) and lines increasing with cement', 'QI is not tested.', [QF], ['estimate_cem'],
     note='cal_v_const is uninterpreted here (Q03). Up to 2 data and 4 seeds.')
prop('Q05', 'Rock physics templates and diagrams draw the computed curves and the data',
     'plot_rpt draws for each porosity impedance (vp*rho) against vp/vs over the saturations, with Reuss fluid mixing, and a line for the last saturation; '
     'screening_plot draws the three bounds and the data coloured by sand volume; cst_plot and cement_diag_plot draw the contact-cement and friable '
     'bounds and one constant-cement line per end point, and the data coloured by cement volume; normalize divides by the largest value; kde_plot draws '
     'the three bounds over the estimated density of the (phi, Vp) or (phi, Vs) data and its contours, relative to the peak, with less than 1e-4 shown as none.',
     'all rocks, fluids and data', 'QI is not tested.', [QF], ['plot_rpt', 'screening_plot', 'cst_plot', 'cement_diag_plot', 'normalize', 'kde_plot'],
     note='Line and point data as given to matplotlib, not their rendering; the density estimator kde2d of kde_plot is external: any result on a 2x2 grid. Up to 3x2 points of a template (4x4 thorough).')
