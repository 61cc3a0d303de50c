#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
A='cosmic_profiles/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[A+f for f in files],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
AL='dens_profs/dens_profs_algos.pyx'; SH='shape_profs/shape_profs_algos.pyx'; HC='cython_helpers/helper_class.pyx'; PR='common/python_routines.py'
p('C01','Results do not depend on where the periodic boundary cuts an object',
 'For an object whose extent along every axis is below half the box size, moving all its particles by one common vector and wrapping them back into the periodic box leaves its total mass, its density profiles and its shapes unchanged and moves its centre by that vector modulo the box size. Reported object centres always lie in [0, L_BOX). With box size 0 (non-periodic) coordinates are used exactly as given.',
 ['inputs'],'every particle configuration of an object with extent < L/2, every translation vector, every position of the boundary relative to the object, both centre definitions',
 'tests place halos well inside the box and check array shapes only; a halo cut by a face, an edge or a corner never occurs',
 [HC,PR,AL,SH],[('unwrapping around the boundary (Python side, used for centres)',A+PR),('unwrapping around the boundary (compiled side, used for profiles and shapes)',A+HC),('re-centring into the box',A+PR)],
 ['getMassesCenters','estDensProfs','getShapeCatLocal','getShapeCatGlobal','calcMassesCenters','calcDensProfs*','calcMorph*'])
p('C02','Object masses and centres are those of the object\'s own particles',
 'For every object, the reported total mass is the sum of the masses of exactly the particles its index list names, and the reported centre is, for "com", the mass-weighted mean of their positions and, for "mode", the mean obtained by iteratively shrinking a sphere by 17 % around the current mass-weighted mean until fewer than five particles remain. Both are equivariant under scaling masses and positions.',
 ['inputs'],'every particle catalogue, every index list (overlapping objects included), all masses > 0, both centre definitions',
 'tests only look at the array shapes returned; no value of a mass or centre is ever compared with a reference',
 [AL,PR,SH],[('mass accumulation loop',A+AL),('centre of mass / mode',A+PR)],['getMassesCenters','centers and masses of the shape catalogues'])
p('C03','An object selection returns exactly the rows of the selected objects',
 'Asking for a list of object numbers returns one row per number, in the order given, equal to the row the same object has when everything is computed for the full catalogue, whatever other objects are selected. A selection that is empty, negative, repeated, non-integer or beyond the number of objects is refused with ValueError. No analysis call changes the particle data, index catalogue or sizes held by the object or passed in by the caller.',
 ['inputs','histories'],'every catalogue of objects of different sizes, every selection (any order), every sequence of analysis calls',
 'tests always select the same few objects in ascending order and never compare the values for one selection with those for another',
 [PR,'dens_profs/dens_profs_classes.pyx','shape_profs/shape_profs_classes.pyx','common/cosmic_base_class.pyx',AL],[('selection validity check',A+PR),('sub-selecting the index catalogue',A+PR),('call sites pairing it with sizes and radii','cosmic_profiles/dens_profs/dens_profs_classes.pyx')],['getMassesCenters','estDensProfs','fitDensProfs','estConcentrations','getShapeCat*'])
p('C04','Direct-binning spherical density profiles conserve mass',
 'In the spherical direct-binning profile of an object each of its particles is counted in exactly the one radial bin [lower edge, upper edge) containing its distance from the centre and in no other, with bin edges midway between the requested radii (the last edge being the last radius) in units of the object\'s R200. The value of a bin is the sum of the masses of its particles divided by the volume of its spherical shell, 0 for an empty bin.',
 ['inputs'],'every object, every particle position including positions exactly on a bin edge, every increasing list of radii, all masses',
 'tests check the shape of the returned array; a dropped, doubled or misweighted particle changes no shape',
 [AL,HC],[('bin edges and per-object loop',A+AL),('brute-force binning',A+HC)],['estDensProfs(direct_binning=True, spherical=True)'])
p('C05','Ellipsoidal density profiles use the object\'s own particles and shells',
 'In the ellipsoidal direct-binning profile a particle contributes to a bin exactly if, in the frame of that bin\'s principal axes about the object centre, it lies inside the ellipsoid at the outer edge and not inside the one at the inner edge; the value is the summed mass divided by the difference of the two ellipsoid volumes, NaN for an empty bin. Semi-axes and axis directions are the piecewise linear interpolation of the object\'s own shape profile. When the shape profile is spherical the result equals the spherical profile on the same edges.',
 ['inputs'],'every object, every number of objects in the catalogue, every positive semi-axis profile, every orthonormal frame, every particle position including on a surface',
 'the only test of this path looks at the array shape',
 [AL,HC],[('interpolation of axes and per-object loop',A+AL),('ellipsoidal binning',A+HC)],['estDensProfs(direct_binning=True, spherical=False)'])
p('C06','Kernel-based density profiles are the stated kernel sum',
 'The kernel-based profile at radius r is the sum over the object\'s own particles of mass divided by h^3 times the angle-averaged normalised Gaussian kernel of r, the particle\'s distance r_i from the centre and its width h = 0.005 R200 sqrt(r_i/(0.1 R200)). The value of one object depends on no other object and is linear in the masses.',
 ['inputs'],'every object, every number of objects of different sizes, every radius > 0, all masses',
 'tests check the shape of the returned array only',
 [AL,HC],[('kernel widths and accumulation',A+AL),('angle-averaged kernel',A+HC)],['estDensProfs(direct_binning=False)'])
p('C07','Shapes are the stated fixed-point iteration over the object\'s particles',
 'Position-based shapes, local (at each requested radius) and global, are obtained by repeating: select the particles inside the current ellipsoid (or ellipsoidal shell) of fixed semi-major axis d, diagonalise their mass-weighted second-moment tensor about the object centre (with weights 1/r_ell^2 if reduced), set q and s to the square roots of the eigenvalue ratios and the axes to the unit eigenvectors, largest first, until both ratios change by no more than IT_TOL. The reported d, q, s and axes are those of the last iteration; they satisfy 0 < s <= q <= 1 with unit axes.',
 ['inputs'],'every particle distribution, every tolerance and iteration limit, reduced and non-reduced tensor, shell- and ellipsoid-based, every number of objects and radii, every eigen-decomposition allowed by the LAPACK contract',
 'the iteration branches on every particle; tests run it on a handful of random halos and check only array shapes',
 [SH,HC],[('iteration',A+SH),('second-moment tensor',A+HC),('eigen-solver wrapper',A+HC)],['getShapeCatLocal','getShapeCatGlobal'])
p('C08','A shape is reported exactly when the iteration converged, otherwise NaN',
 'An object (or radius) whose iteration ever has fewer than IT_MIN particles or needs more than IT_WALL iterations is reported with NaN for d, q, s and all axis components and is_conv False; every other one is reported with finite values and is_conv True. A legitimate value, a zero axis component included, is never replaced by NaN.',
 ['inputs'],'every particle distribution, IT_MIN, IT_WALL, IT_TOL; all four shape calls',
 'tests never compare convergence flags with values and their random halos never have a zero axis component',
 [SH,'shape_profs/shape_profs_classes.pyx'],[('early returns of the iteration',A+SH),('replacement of unset values by NaN',A+SH),('is_conv column','cosmic_profiles/shape_profs/shape_profs_classes.pyx')],['getShapeCatLocal','getShapeCatGlobal','getShapeCatVelLocal','getShapeCatVelGlobal'])
p('C09','Velocity shapes are shapes of the object\'s own velocities',
 'Velocity-based shapes select particles by position exactly as the position-based ones, but their tensor is the mass-weighted second moment of the selected particles\' velocities about the object\'s velocity centre (mass-weighted mean velocity for "com"). They are unchanged when a constant velocity is added to all particles and they respond to the velocities actually supplied, for local and global shapes alike.',
 ['inputs'],'every particle distribution and velocity field, reduced and non-reduced, shell and ellipsoid',
 'no reliable test runs a velocity shape and looks at its values',
 [SH],[('velocity variants of the iteration and their drivers',A+SH)],['getShapeCatVelLocal','getShapeCatVelGlobal','calcMorphLocalVelDisp','calcMorphGlobalVelDisp'])
p('C10','Results do not depend on thread count or schedule',
 'Masses, density profiles, shapes and halo catalogues are the same for every number of threads and every assignment and order of objects to threads. Work on one object reads nothing that work on another object has written and writes nothing that belongs to another object.',
 ['schedules'],'every assignment of objects to threads and every order, every number of threads, arbitrary left-over contents of all per-thread scratch memory',
 'tests run one schedule chosen by the OpenMP runtime, mostly with few objects of the same size',
 [AL,SH,'gadget/gen_catalogues.pyx'],[('per-thread scratch buffers',A+SH),('parallel loops',A+AL),('parallel catalogue construction',A+'gadget/gen_catalogues.pyx')],['calcMassesCenters','calcDensProfs*','calcMorph*','calcObjCat'],
 [('scratch','per-thread work arrays reused from object to object',A+SH)])
p('C11','Unit handling is consistent: inputs scale in, outputs scale out',
 'The same physical system described in different input units gives the same results, and choosing other output units multiplies every length, mass, density and velocity by exactly the ratio of the units and leaves dimensionless results (radii over R200, axis ratios, directions, concentrations) unchanged. Every conversion helper for lengths, masses and velocities works for every admissible unit and little h, and converting in and back is the identity.',
 ['inputs','configurations'],'every positive unit size in cm, g, cm/s (named or numeric) and every little h, for all public results',
 'tests use one unit system and check shapes',
 ['common/config.py','dens_profs/dens_profs_classes.pyx','shape_profs/shape_profs_classes.pyx','common/cosmic_base_class.pyx','dens_profs/dens_profs_tools.py'],[('unit state and conversion factors',A+'common/config.py'),('scaling at construction and at each getter',A+'dens_profs/dens_profs_classes.pyx')],['constructors','getMassesCenters','getR200','getXYZMasses','estDensProfs','fitDensProfs','estConcentrations','getShapeCat*'])
p('C12','Caching never changes a result',
 'A call to a cached function returns what the uncached function would return for the same arguments, whatever calls, evictions and cache clears happened before, whether or not arguments differ only in array shape, keyword use or value. The cache never holds more than its maximum number of entries, drops the least recently used one first, and its hit, miss and size counters are exact.',
 ['histories','inputs'],'every sequence of calls, clears and memory states up to the stated length; every cache size incl. 0 and None; argument tuples that may or may not be equal',
 'tests call each cached function once or twice with the same arguments',
 ['common/caching.py'],[('LRU cache',A+'common/caching.py'),('array hashing wrapper',A+'common/caching.py')],['np_cache_factory-decorated functions, cache_info, cache_clear'],
 [('cache, root list','entries and recency order',A+'common/caching.py')])
p('C13','Halo catalogues built from group data name the right particles',
 'From group and subhalo tables, an object is created for every group that has at least one subhalo and whose first subhalo has at least MIN_NUMBER_PTCS particles, in group order. Its index list is the contiguous run starting at the summed sizes of all preceding groups with the length of that first subhalo; its size and virial radius are that subhalo\'s length and that group\'s radius.',
 ['inputs'],'every table of up to the stated number of groups, incl. groups without subhaloes or particles, every MIN_NUMBER_PTCS',
 'tests load one fixed snapshot and check shapes',
 ['gadget/gen_catalogues.pyx'],[('catalogue construction',A+'gadget/gen_catalogues.pyx')],['calcObjCat','DensShapeProfsGadget constructors'])
p('C14','Constructing an analysis object keeps exactly the resolved objects',
 'Given per-object index lists and R200 values, the constructed analysis object keeps, in order, exactly the objects with at least MIN_NUMBER_PTCS particles, each with its own index list, its own size and its own R200. The flattened index list is the concatenation of the kept lists, and coordinates, masses, radii and the box size are converted from input to internal units once.',
 ['inputs'],'every list of index lists with sizes on both sides of the threshold, empty lists included',
 'tests use one catalogue in which all objects pass',
 ['dens_profs/dens_profs_classes.pyx','shape_profs/shape_profs_classes.pyx','__init__.py'],[('filtering in the constructors','cosmic_profiles/shape_profs/shape_profs_classes.pyx')],['DensShapeProfs(...)','getIdxCat','getR200','getXYZMasses'])
p('C15','Snapshot blocks are read back exactly as stored',
 'Reading a block of a snapshot (binary format 1 or 2, either byte order, single or double precision, 32- or 64-bit IDs, or HDF5; one file or several) returns for the requested particle types exactly the stored values, of the right particles, in the order of the requested types and of the files, with positions, masses and velocities converted to the internal units (velocities multiplied by sqrt(a)); header fields are those stored; a block that is not there is reported, not made up; particle masses come from the header table for types whose mass is fixed there and from the mass block otherwise.',
 ['inputs','configurations'],'every header with arbitrary particle counts per type (zeros included), every block and particle type, all formats, byte orders and precisions, one or several sub-files',
 'tests read no binary snapshot at all',
 ['gadget/readsnap.py','gadget/readgadget.py'],[('header parsing, block search, block reading',A+'gadget/readsnap.py'),('unit conversion and format dispatch',A+'gadget/readgadget.py')],['readgadget.read_block','readgadget.header','readsnap.read_block'])
p('C16','A dumped shape catalogue reloads as the same catalogue',
 'After a shape catalogue has been dumped, asking for the same catalogue with the same selection and settings returns what was dumped, to the printed precision, with the same array shapes: for any number of objects and radii, with NaN rows, in any output units, for local, global and velocity shapes. A catalogue dumped for another selection, other settings or other output units is not taken for the one asked for, files of one kind of catalogue are never taken for another kind, and a dump that was interrupted part-way is never reloaded.',
 ['inputs','histories','configurations'],'every number of objects (1, more; an empty selection is refused) and radii (1, more), NaN entries, output units, kinds of catalogue, order of dump and get calls, every point at which a dump is interrupted',
 'tests dump once for one configuration and only compare file existence and shapes',
 ['common/cosmic_base_class.pyx','shape_profs/shape_profs_classes.pyx'],[('dump and reload with shape recovery',A+'common/cosmic_base_class.pyx')],['dumpShapeCat*','getShapeCat*'])
p('C17','Mass splitting partitions the objects',
 'Splitting objects into bins of a quantity puts every object in exactly one bin, in order of that quantity, with about equally many objects per bin, and the bin edges are increasing and enclose the objects of their bin. Every object that is split into bins shows up in exactly one averaged group.',
 ['inputs'],'every list of masses (ties included), every number of bins and start time',
 'tests produce plots from one catalogue and check nothing about the groups',
 ['common/cosmo_tools.py','dens_profs/dens_profs_tools.py','shape_profs/shape_profs_tools.py'],[('mass split',A+'common/cosmo_tools.py'),('grouping of profiles',A+'dens_profs/dens_profs_tools.py')],['M_split','drawDensProfs','getShape'])
p('C18','Profile fits and concentrations are self-consistent',
 'Fitting a density profile that exactly follows an admissible model makes the minimised cost zero at the true parameters for every model, and positive away from them. Parameters fixed by the user (rho_s and r_s in output units) stay exactly fixed, radii without an estimate (NaN) are ignored, objects without any estimate get NaN, and every object keeps its own row whatever other objects are fitted. The concentration is R200 over the fitted scale radius r_s, and each analytic profile equals its documented definition at all radii and parameter values.',
 ['inputs'],'every admissible parameter vector and radius, every subset of fixed parameters, every number of objects; the optimiser is an arbitrary point of its bounds',
 'tests fit a few mock halos and check only that arrays come out with the right shape',
 ['dens_profs/dens_profs_tools.py','dens_profs/dens_profs_classes.pyx','common/cosmic_base_class.pyx'],[('profile functions and cost',A+'dens_profs/dens_profs_tools.py'),('concentration',A+'common/cosmic_base_class.pyx')],['fitDensProfs','estConcentrations','getEinastoProf, getNFWProf, getHernquistProf, getAlphaBetaGammaProf'])
p('C19','Mock haloes have the requested mass, shells and particles',
 'A mock halo consists of particles each lying inside the ellipsoidal shell it was drawn for, with the number of particles per shell set by the requested density profile; its particle coordinates are finite for every random draw and the halo mass is the number of particles times the particle mass. The point samplers return points inside the stated ellipsoid or shell for every random draw.',
 ['inputs'],'every random draw (the generator is an arbitrary value of its range), every semi-axis profile, every number of shells',
 'tests use a few seeds',
 ['mock_tools/mock_halo_gen.py',PR],[('shell sampling',A+PR),('halo generation',A+'mock_tools/mock_halo_gen.py')],['genHalo','drawUniformFromShell','drawUniformFromEllipsoid','inShell'])
p('C20','Group files give the same tables for any number of processes',
 'The group and subhalo tables obtained from a set of files equal the concatenation of the files\' tables in file-number order, for every number of MPI processes (also more processes than files), every distribution of groups over the files including files without groups or subhaloes, and every broadcast chunking. Radii are converted to internal units. An analysis object built on the files works with any number of processes and returns on the root process what a single process returns.',
 ['configurations','inputs'],'every number of processes and files up to the bound, every number of groups per file, numeric (not lexical) file order',
 'tests run with a single process on one file set',
 ['gadget/read_fof.py'],[('work split, gather displacements, chunked broadcast',A+'gadget/read_fof.py')],['getFoFSHData'])
p('C21','Derived statistics obey their definitions',
 'Ellipticities follow their definition and their modulus lies in [0, 1]. The averaged profile of a group of objects is, at each radius, the mean or median of the finite values of its members that fall nearest to that radius, with error bars that are the standard error of the mean, the spread of bootstrap means, or the quartiles over the square root of the number of values, as selected. Each object enters a histogram of ellipticity or triaxiality once with its value. Chi-square, particle-mass and relative-overdensity helpers equal their formulas and the scientific-notation formatter shows the number it was given (exponents 00-19 of either sign).',
 ['inputs'],'every list of values including NaN entries, every number of bins, every mantissa and exponent in the documented range',
 'tests draw one plot each and look at no number',
 [PR,'common/cosmo_tools.py','shape_profs/shape_profs_tools.py'],[('statistics helpers',A+PR),('ellipticity',A+'common/cosmo_tools.py')],['getEpsilon','getMeanOrMedianAndError','chiSquareToIMultiDim','getDelta','eTo10'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title'])); f.write(json.dumps(x)+'\n')
print(len(P))
