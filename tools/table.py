prop('M01', 'Vector and matrix algebra obeys its textbook definition',
 'Every three-vector and 3x3-matrix operation (sums, scaling, scalar and vector products, magnitude, normalisation, spherical coordinates, transposition, matrix-vector and matrix-matrix products, determinant, in-place and value forms, deflection by an angle) returns the mathematically defined result for all finite inputs.',
 'all finite component values, including zero, parallel, opposite and axis-aligned vectors', 'tests sample a few axis-aligned vectors; the identities are over all real components and every branch',
 ['projects/math/public/SIREN/math/Vector3D.h', 'projects/math/private/Vector3D.cxx', 'projects/math/private/Matrix3D.cxx'],
 [('vector operators and spherical/cartesian conversion', 'math/private/Vector3D.cxx'), ('matrix operators', 'math/private/Matrix3D.cxx')])
prop('M02', 'Rotations: quaternions, Euler angles and matrices agree',
 'Every rotation object built from an axis and angle, two vectors, one of the 24 Euler conventions, a matrix or a product turns vectors exactly as that definition says: lengths and angles are kept, inverse undoes, composition composes, conversions between quaternion, matrix, axis-angle and Euler angles describe the same rotation, and the rotation between two directions maps one onto the other.',
 'all axes, angles, unit quaternions, all pairs of non-zero vectors including parallel and opposite ones, all 24 Euler orders', 'tests sample a handful of angles and conventions; the interesting cases (opposite vectors, rotating-frame orders, near-180-degree matrices) are single points or branches',
 ['projects/math/private/Quaternion.cxx', 'projects/math/private/EulerAngles.cxx', 'projects/math/private/Matrix3D.cxx'],
 [('quaternion product, rotate, conversions', 'math/private/Quaternion.cxx'), ('Euler conversions', 'math/private/EulerAngles.cxx')])
prop('M03', 'A placement is a rigid motion with an exact inverse',
 'Transforming a position or direction from the local frame of a placement to the global frame and back (in either order) gives the original, distances and angles are preserved, the local origin goes to the placement position, and directions transform as differences of positions. A placement claims to be the identity only when it is.',
 'all positions, all non-zero quaternions, every way of building, copying, moving, swapping and modifying a placement', 'the maps are continuous families; tests check a few placements',
 ['projects/geometry/private/Placement.cxx'], [('local/global transformations', 'geometry/private/Placement.cxx'), ('identity flag', 'Placement::UpdateIdentityFlag')], over=('inputs', 'histories'))
prop('D01', 'Particle records derive kinematics consistently or refuse',
 'Whichever of mass, energy, kinetic energy, direction and momentum of a particle have been given to a primary or secondary record, every other kinematic quantity it reports (including the four-momentum and the whole particle) is the one of that particle, or the query fails with an error; which queries ran before, or what was set and overwritten earlier, makes no difference. A record accepts a particle only with its own identity and type, and never reports a NaN mass.',
 'all masses, momenta and directions, all 32 subsets of given quantities, prior queries and overwrites', 'the subsets times continuous values times query orders are not enumerable by tests',
 ['projects/dataclasses/private/InteractionRecord.cxx'], [('derivation of missing quantities', 'PrimaryDistributionRecord::Update*, SecondaryParticleRecord::Update*')], over=('inputs', 'histories'))
prop('D02', 'Primary records derive the track geometry consistently or refuse',
 'Whichever of direction, length, start, interaction vertex, point of closest approach to the origin and the two signed distances from it have been given to a primary record, every other one it reports is that of the same straight track, or the query fails with an error, independent of the queries made before. Distances from the closest approach are signed along the direction of flight.',
 'all straight tracks of positive length, all 128 subsets of given quantities, prior queries', 'tests cover a few subsets with axis-aligned tracks where sign errors cancel',
 ['projects/dataclasses/private/InteractionRecord.cxx'], [('track derivations', 'PrimaryDistributionRecord::Update{Length,InitialPosition,InteractionVertex,PointOfClosestApproach,*DistanceFromClosestApproach}')], over=('inputs', 'histories'))
prop('D03', 'Interaction times are causal flight times',
 'The time of an interaction is the start time of the particle plus its path length divided by its velocity, so it is never before the start and never faster than light; without flight or at rest it equals the start time. Secondaries are born at the interaction time unless given their own, an explicitly set time always wins, and the final record carries the same times.',
 'all masses, momenta, positions, lengths and time offsets, all orders of setting and overriding times', 'tests check beta near 1 with fixed numbers',
 ['projects/dataclasses/private/InteractionRecord.cxx'], [('flight time', 'FlightTime, UpdateInteractionTime, SecondaryDistributionRecord::GetInteractionTime'), ('vertex time override', 'CrossSectionDistributionRecord::SetInteractionTime')], over=('inputs', 'histories'))
prop('D04', 'Finalising a record writes every quantity to its own place only',
 'Finalising a primary, cross-section or secondary record copies each quantity into the corresponding field (and the slot of that secondary) of the event record, keeps all per-secondary lists at one entry per secondary, leaves every other field untouched, and leaves fields alone whose value is not yet known when only the available part is finalised. Turning a secondary into the primary of the next interaction carries over exactly its own entries, starting at the parent vertex, and copies of such records stand on their own.',
 'all values, zero to three secondaries, filled or fresh target records', 'tests use one or two secondaries with fixed values, so swapped slots or leaking fields go unnoticed',
 ['projects/dataclasses/private/InteractionRecord.cxx'], [('finalisation', 'PrimaryDistributionRecord::Finalize/FinalizeAvailable, CrossSectionDistributionRecord::Finalize, SecondaryDistributionRecord::Finalize')], over=('inputs', 'histories'), level_note='proved for every value; bounded to at most three secondaries per interaction')

prop('M04', 'Polynomials follow calculus and the root finder stays in its bracket',
 'Evaluating, differentiating, integrating, shifting (by more than 1e-9) and scaling a polynomial, and comparing two of them, give the textbook result for every coefficient list, with memory handled consistently. The bracketed root finder refuses an interval without a sign change and otherwise returns a finite number inside the bracket, exact to the accuracy for linear functions.',
 'all coefficients and arguments, polynomials of up to seven coefficients; all functions, derivatives, brackets and guesses', 'tests use fixed integer coefficients; root finding tests use well-behaved functions',
 ['projects/math/private/Polynomial.cxx'], [('polynomial algebra', 'Polynom'), ('safe Newton iteration', 'NewtonRaphson')], level_note='proved for all values; polynomials up to 7 coefficients, root finder for any number of iterations by an inductive loop invariant')
prop('D05', 'Generated particle identifiers never repeat',
 'Within a run, and across processes split off it at any point, every generated particle identifier is set and different from all generated before. Identifiers carry exactly the numbers given, an unset one equals no set one, and they are totally ordered consistently with equality so that they work as keys.',
 'all identifier values; every position of a process split among the calls', 'uniqueness is about all histories; tests do not fork or look at wrap-around of the process check',
 ['projects/dataclasses/private/ParticleID.cxx', 'projects/dataclasses/private/Particle.cxx'], [('global id generation', 'ParticleID::GenerateID'), ('comparison', 'ParticleID::operator<')], over=('inputs', 'histories'), level_note='proved for histories of five calls with one process split; concurrency of threads and exhaustion of the 32-bit counter are not modelled')
prop('D06', 'The interaction tree keeps ids, parents and daughters consistent',
 'After any sequence of additions every node has its position as id, its parent precedes it and lists it once among its daughters in order of addition, roots have no parent, and the depth of a node is its number of ancestors. Loading refuses a tree with missing nodes or out-of-range links, converts the legacy pointer layout to the same links without leaving pointer cycles, and walking a loaded tree always ends; two trees are equal exactly when nodes and header agree.',
 'all addition orders and parent choices, all index values in an archive', 'tests build one or two fixed trees; corrupt archives are an open-ended set',
 ['projects/dataclasses/private/InteractionTree.cxx', 'projects/dataclasses/public/SIREN/dataclasses/InteractionTree.h'], [('construction', 'InteractionTree::add_entry'), ('validation on load', 'InteractionTree::load')], over=('inputs', 'histories'), level_note='proved for trees of up to four additions and archives of up to two (legacy: three) nodes')
prop('D07', 'Signatures and event records compare by value',
 'Two interaction signatures, decay signatures or event records are equal exactly when all their quantities agree, and the less-than relation is a strict total order consistent with equality, so that sorting and map lookup by them are well defined. The lepton, neutrino, charge and D-meson classifications follow the PDG codes.',
 'all values of all fields; each field alone and pairs of fields', 'a comparison that forgets one field is only seen by values differing in that field alone',
 ['projects/dataclasses/private/InteractionRecord.cxx', 'projects/dataclasses/private/InteractionSignature.cxx', 'projects/dataclasses/private/DecaySignature.cxx', 'projects/dataclasses/private/Particle.cxx'], [('comparison operators', 'InteractionRecord::operator==, operator<; InteractionSignature::operator<')], level_note='proved for all values; records with two secondaries, signatures with up to two secondaries')

prop('T01', 'Density profiles and their axes follow their definition',
 'A cartesian axis coordinate is the projection on the axis from its anchor and a radial one the distance from its centre; the reported slope is the change of that coordinate along any direction. Constant, exponential and polynomial profiles return their defined value, derivative and antiderivative at every point, in every way of building or copying them, and axes and profiles are equal exactly when kind and parameters agree.',
 'all axes, centres, points, directions, parameters; polynomials of one to five coefficients', 'the definitions are continuous families; tests sample single points of default objects',
 ['projects/detector/private/CartesianAxis1D.cxx', 'projects/detector/private/RadialAxis1D.cxx', 'projects/detector/private/ConstantDistribution1D.cxx', 'projects/detector/private/ExponentialDistribution1D.cxx', 'projects/detector/private/PolynomialDistribution1D.cxx'],
 [('axes', 'CartesianAxis1D, RadialAxis1D'), ('profiles', 'ConstantDistribution1D, ExponentialDistribution1D, PolynomialDistribution1D')], level_note='proved for all values; exponential slope parameter non-zero, polynomials up to five coefficients')
prop('T02', 'Column depth is the line integral of the density and its inverse inverts it',
 'For constant, cartesian and radial densities with any profile, the column depth along a direction or between two points is the line integral of the density (finite also perpendicular to the axis and for coinciding points, additive along a line), the directional derivative and antiderivative agree with it, and the distance returned for a given column depth - with or without an additional constant density - lies between zero and the maximum and has exactly that column depth, or is -1 exactly when the maximum distance is not enough. Copies, clones and comparisons respect axis and profile.',
 'all profiles (arbitrary functions), axes, points, unit directions, distances and integrals', 'tests use special directions and a start at the axis origin, where sign and offset errors vanish',
 ['projects/detector/public/SIREN/detector/DensityDistribution1D.h', 'projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h', 'projects/detector/public/SIREN/detector/ConstantDensityDistribution.h'],
 [('column depth', 'DensityDistribution1D::Integral'), ('inverse', 'DensityDistribution1D::InverseIntegral')], level_note='proved for arbitrary profiles modulo the contracts of the root finder (M04) and of numerical integration (its tolerance is not modelled)')
prop('T03', 'Material composition is bookkept consistently',
 'For every material defined from nuclear mass fractions, the mass fraction and the number of particles per gram of each nucleus and of protons, neutrons, nucleons and electrons follow from mass fractions, molar masses and the proton and neutron content of the PDG code; every target is listed once, absent ones have fraction zero, list forms agree with single queries. Redefining a material replaces it completely, other materials are unaffected, names and ids correspond. Inverse radiation lengths add up by mass fraction and each nucleus gets its share.',
 'all mass fractions and molar masses; materials of one to three nuclei, redefinition, seven nuclei including a hypernucleus and an excited state', 'tests check a few total numbers; stale entries need a particular history',
 ['projects/detector/private/MaterialModel.cxx', 'projects/detector/public/SIREN/detector/MaterialModel.tcc'],
 [('material definition', 'MaterialModel::AddMaterial'), ('queries', 'MaterialModel::GetTarget*Fraction'), ('nuclear codes', 'MaterialModel::Component')], over=('inputs', 'histories'), level_note='proved for all values; materials of up to three nuclei taken from seven representative nuclear codes; file parsing not covered')

prop('U03', 'Random draws follow the requested law and the seed alone',
 'A uniform draw lies between the given bounds in either order and is an affine image of the same underlying draw; a power-law draw lies in its range and is the exact inverse of the cumulative distribution of that power law, also for index -1. The sequence of draws is determined by the seed and the number of draws made since seeding, and setting the same seed again restarts the same sequence.',
 'all bounds, indices and underlying draws; the histories of seeding and drawing', 'tests compare histograms of a few fixed ranges; the singular index and reversed ranges are single points',
 ['projects/utilities/private/Random.cxx'], [('draws', 'SIREN_random::Uniform, SIREN_random::PowerLaw'), ('seeding', 'SIREN_random::set_seed')], over=('inputs', 'histories'), level_note='proved for every underlying draw; the quality of the standard library generator itself is trusted')
prop('X01', 'Energy distributions: density and sampler describe the same law',
 'The power law, mono-energetic, pion-decay-at-rest and Moyal-plus-exponential energy distributions sample only inside their range, their generation probability is the stated density, normalised over the range and zero outside it, and the sampler draws from that density: exact inverse of the cumulative distribution where there is one, bisection to the stated tolerance, or a Metropolis-Hastings chain that stays inside the range with the correct acceptance ratio. A normalisation given at an energy is reproduced at that energy.',
 'all indices, ranges, energies and underlying draws, any number of chain or bisection steps', 'tests check histograms of one or two parameter sets; mismatches at the range borders or special indices have tiny measure',
 ['projects/distributions/private/primary/energy/PowerLaw.cxx', 'projects/distributions/private/primary/energy/Monoenergetic.cxx', 'projects/distributions/private/primary/energy/PiDARNuEDistribution.cxx', 'projects/distributions/private/primary/energy/ModifiedMoyalPlusExponentialEnergyDistribution.cxx'],
 [('samplers', '*::SampleEnergy'), ('densities', '*::GenerationProbability, *::pdf')], over=('inputs',), level_note='proved for all parameters and draws, sampling loops by inductive invariants (partial correctness); numerical integration is replaced by its contract')
prop('X02', 'Direction distributions: density and sampler describe the same law',
 'Isotropic directions are unit vectors with cosine and azimuth uniform over the whole sphere and density 1/(4 pi) everywhere; a fixed direction is always that direction with probability one and zero for every other, whatever the length of the given vector; a cone samples unit vectors inside its opening angle around its axis, uniform in solid angle, with density one over that solid angle inside and zero outside, for every axis including straight down.',
 'all axes, opening angles, directions and underlying draws', 'tests check a few axes; downward axes, unnormalised vectors and cone borders are special points',
 ['projects/distributions/private/primary/direction/IsotropicDirection.cxx', 'projects/distributions/private/primary/direction/FixedDirection.cxx', 'projects/distributions/private/primary/direction/Cone.cxx'],
 [('samplers', '*::SampleDirection'), ('densities', '*::GenerationProbability')])
prop('U01', 'Interpolation tables reproduce and interpolate their nodes',
 'A one- or two-dimensional table evaluated at a node gives the tabulated value; between nodes it gives the value linear (or, for logarithmically spaced tables, log-linear) in the bracketing nodes and never one outside them; outside the table it extends its border bin; regular, logarithmic and irregular spacing, any order of the input rows, and zero values in logarithmic tables are all handled, and copies behave like the original.',
 'all node positions, table values, evaluation points', 'tests use a handful of equidistant tables; nodes, borders, zero values and spacing detection are special points',
 ['projects/utilities/public/SIREN/utilities/Interpolator.h', 'projects/utilities/private/Interpolator.cxx'],
 [('bin lookup and evaluation', 'RegularIndexer1D, IrregularIndexer1D, Interpolator1D, Interpolator2D'), ('spacing detection', 'SelectIndexer')])
prop('X03', 'Tabulated fluxes: density, normalisation and samplers describe the same law',
 'A tabulated flux (in energy, or in energy and zenith angle) has as its generation density the interpolated table divided by its integral over the chosen energy (and zenith) range and zero outside, whether the range comes from the table, the constructor or a later setter; the physical normalisation is that integral when asked for; the one-dimensional sampler inverts the cumulative trapezoidal area, and the two-dimensional sampler is a Metropolis-Hastings chain whose stationary law is that density: a proposal is taken with probability min(1, ratio of densities corrected for logarithmic proposals) and the current point repeated otherwise.',
 'all tables, ranges, energies, directions and underlying draws; any number of burn-in steps (loop invariant)', 'a wrong acceptance ratio or normalisation shifts spectra by percents, invisible to range checks of a few samples',
 ['projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx', 'projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx'],
 [('1D flux', 'TabulatedFluxDistribution'), ('2D flux', 'Tabulated2DFluxDistribution')])
prop('U02', 'Numerical integrators return the integral they claim to',
 'The trapezoidal integrator gives the trapezoidal sum with the stated number of panels of any function whatever was computed before; Romberg integration extrapolates successive trapezoidal sums, is exact for polynomials up to seventh order with either order of limits, and returns only when the estimate meets the relative tolerance; two-dimensional Simpson integration is exact for cubics on any rectangle and returns only when converged; integrating a table over a range gives the integral of the piecewise linear function over the part of the range it covers. Negative tolerances are refused.',
 'arbitrary integrands, limits and tolerances; tables of up to five nodes, the first refinement stages', 'tests integrate one or two smooth functions with a loose tolerance; a wrong weight or an early stop hides in the tolerance',
 ['projects/utilities/public/SIREN/utilities/Integration.h'], [('one dimension', 'TrapezoidalIntegrator, rombergIntegrate'), ('two dimensions', 'simpsonIntegrate2D'), ('tables', 'trapezoidIntegrate')], level_note='proved for arbitrary integrands at the first refinement stages (two for Romberg, one for Simpson) and for all polynomials of the exactness degree; tables of up to five nodes')
prop('X04', 'Distributions compare by what they generate',
 'Two distributions are equal exactly when they are of the same kind with the same parameters (direction regardless of the length of the given vector), equality is symmetric, and less-than is a strict order with exactly one of less, equal, greater, also between different kinds, so cancelling equal generation and physical distributions in weights is safe. A primary mass is set on the event and events of another mass have probability zero; neutrino helicity is left for particles, right for antiparticles, and only that has probability one; a normalisation constant never depends on the event.',
 'all parameter values of all kinds of energy, direction, mass, helicity and flux distributions', 'a comparison forgetting one parameter is only seen by objects differing in that parameter alone',
 ['projects/distributions/private/Distributions.cxx', 'projects/distributions/private/primary/mass/PrimaryMass.cxx', 'projects/distributions/private/primary/helicity/PrimaryNeutrinoHelicityDistribution.cxx', 'projects/distributions/private/primary/direction/Cone.cxx', 'projects/distributions/private/primary/direction/FixedDirection.cxx'],
 [('comparison', 'WeightableDistribution::operator==, operator<, *::equal, *::less'), ('mass and helicity', 'PrimaryMass, PrimaryNeutrinoHelicityDistribution')])
prop('X05', 'Decay ranges and lepton depths follow their physical formula',
 'The decay range of a particle is the chosen multiple of its boosted decay length, beta gamma times hbar c over the width, and never above the maximal distance; the lepton depth is the muon range for that energy, plus the tau range for tau neutrinos only, never above the maximal depth, and grows with energy. Range and depth functions are equal exactly when kind and parameters agree and are strictly ordered otherwise.',
 'all masses, widths, energies, multipliers, limits and coefficients', 'tests evaluate single energies; caps and flavour branches are special cases',
 ['projects/distributions/private/primary/vertex/DecayRangeFunction.cxx', 'projects/distributions/private/primary/vertex/LeptonDepthFunction.cxx', 'projects/distributions/private/primary/vertex/RangeFunction.cxx', 'projects/distributions/private/primary/vertex/DepthFunction.cxx'],
 [('decay range', 'DecayRangeFunction::DecayLength, Range'), ('lepton depth', 'LeptonDepthFunction::operator()')])
prop('I01', 'Interaction collections add up exactly the interactions they were given',
 'A collection keeps its cross sections and decays in order and tells a mixed list apart or refuses it; the cross sections reported for a target are exactly those listing it, totals per target are the sums over them evaluated for that target without changing the record; the total over final states sums every signature of the given parents; widths add up, inverse decay lengths add up, a decay length is beta gamma hbar c over the width, and without decays it is infinite. Collections are equal exactly when primary, cross sections and decays agree.',
 'any classes of interactions with any total, up to three of each, all target subsets; all momenta and widths', 'wrong sums need two interactions with overlapping targets; tests use one',
 ['projects/interactions/private/InteractionCollection.cxx', 'projects/interactions/private/CrossSection.cxx', 'projects/interactions/private/Decay.cxx'],
 [('bookkeeping by target', 'InteractionCollection::InitializeTargetTypes, TotalCrossSectionByTarget*'), ('decay lengths', 'Decay::TotalDecayLength*, InteractionCollection::TotalDecayLengthAllFinalStates')], level_note='proved for all values; up to three interactions of each kind and three targets')
prop('I02', 'Processes keep their distributions, interactions and type in step',
 'Adding or setting distributions of an injection process changes its injection list and its physical list in the same way and order; a distribution equal in value to one already there, or a list with two equal ones, is refused and changes nothing; injection processes take no purely physical distribution through the interface for adding one. Setting the primary type sets it on the interactions and setting interactions takes over their primary type. Copies and assignments take over everything and are independent.',
 'up to three distributions with all patterns of equal values, all primary types', 'duplicates by value and lists out of step need particular histories',
 ['projects/injection/private/Process.cxx'], [('lists', 'PrimaryInjectionProcess::Add/Set*, SecondaryInjectionProcess::Add/Set*, PhysicalProcess::Add/Set*'), ('types', 'Process::SetPrimaryType, SetInteractions')], over=('inputs', 'histories'), level_note='proved for lists of up to three distributions')
prop('K01', 'Two-body decays conserve four-momentum, keep masses and follow their angular law',
 'The products that HNLDipoleDecay, HNLDecay (two-body channels) and ElectroweakDecay sample carry exactly the four-momentum of the decaying particle, for every momentum, mass above threshold and random draw; every product is on the mass shell of its mass. The polar angle in the rest frame, taken from the line of flight, follows (1 + alpha cos)/2 for Dirac HNLs with the asymmetry alpha of the channel, signed by helicity and by particle or antiparticle, and is isotropic for Majorana HNLs. The rotations and boosts used are exact: rotations keep lengths and turn the given direction into the given direction, boosts keep the mass and are Lorentz transformations.',
 'all momenta, masses, helicities, draws; up to rounding', 'a kinematic mistake shows only for particular directions, helicities or mass orderings',
 ['projects/interactions/private/HNLDipoleDecay.cxx', 'projects/interactions/private/HNLDecay.cxx', 'projects/interactions/private/ElectroweakDecay.cxx', 'vendor/rk/rk/rk.cc', 'vendor/rk/rk/geom3_Vector3.icc'], [('dipole', 'HNLDipoleDecay::SampleFinalState'), ('hnl', 'HNLDecay::SampleFinalState (two products)'), ('electroweak', 'ElectroweakDecay::SampleFinalState'), ('rk', 'rk::P4::boost/labBoost/restBoost/rotate, geom3::rotationBetween, geom3::Rotation3')], over=('inputs',), level_note='deductive over real arithmetic; near-parallel directions (closer than 5e-5) are rotated approximately by the code')
prop('G01', 'Line crossings bracket exactly the inside of a solid',
 'For a box and for a sphere or spherical shell without angular cuts, a point of any line (direction of unit length for spheres) is inside exactly if the reported crossings before it hold one entry more than exits; crossings come in order of distance and lie on the line at their distance. The union, intersection and difference of any two solids report exactly the stretches that the operation selects, alternating entries and exits, coinciding surfaces included. A placed solid is asked in its own frame and reports crossings in the global frame with unchanged distances and senses, and a point counts as inside exactly if the next crossing in front of it is an exit. Bounding boxes of boxes, spheres, cylinders, placed and combined solids contain them, and the ray-box test holds exactly for lines that meet the box, with the parameters of entry and exit.',
 'all sizes, positions and directions, including lines parallel to faces and through the centre; any two solids entered up to twice; all placements', 'tests sample random rays through a few solids; parallel, grazing and coinciding cases and exact entry/exit bookkeeping are measure-zero or combinatorial',
 ['projects/geometry/private/Box.cxx', 'projects/geometry/private/Sphere.cxx', 'projects/geometry/private/BooleanGeometry.cxx', 'projects/geometry/private/Geometry.cxx', 'projects/geometry/public/SIREN/geometry/AABB.h'],
 [('crossings', 'Box::ComputeIntersections, Sphere::ComputeIntersections'), ('combination', 'BooleanGeometry::ComputeIntersections, GetBoundingBox'), ('frames', 'Geometry::Intersections, IsInside, RecomputeWorldAABB'), ('bounding boxes', 'AABB, RayAABBIntersect')],
 level_note='proved for all values over the reals; combined solids with at most two stretches on one side and one on the other; world boxes for eight rotations; crossings within 1e-9 in front of the start count as at the start')
