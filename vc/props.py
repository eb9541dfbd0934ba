"""What each check verifies: sources to extract, contract files, replay driver."""
COMMON_TRUST = [
 'clang 18 front end: the JSON AST it prints is the program that is compiled (same sources, -std=c++11 -DNDEBUG)',
 'the verifier itself (/verif/vc: symbolic execution of the clang AST, SMT-LIB emission)',
 'one SMT solver answering unsat per obligation (z3 5.3 / z3 4.8 / cvc5 1.1)',
 'double arithmetic is treated as arithmetic over the reals (no rounding, no overflow, no NaN)',
 'distinct reference parameters do not alias; std::vector allocation succeeds',
]
PROPS = {
 'C17': dict(files=['Sensitivity.cpp'], specs=['perimeter.spec', 'sensitivity.spec'], driver='C17.cpp', link=True),
 'C18': dict(files=['Sensitivity.cpp', 'Boundary.cpp'], specs=['perimeter.spec', 'sensitivity.spec', 'ito.spec'], driver='C18.cpp', link=True),
 'C02': dict(files=['Mesh.cpp'], specs=['mesh.spec'], driver='C02.cpp', flags=[]),
 'C03': dict(files=['Mesh.cpp'], specs=['mesh.spec'], driver='C03.cpp', flags=[]),
 'C01': dict(files=['Heap.cpp'], specs=['heap.spec'], driver='C01.cpp', flags=[]),
 'C04': dict(files=['LevelSet.cpp', 'Mesh.cpp', 'Hole.cpp'], specs=['mesh.spec', 'levelset.spec', 'polygon.spec', 'levelset_ctor.spec'], driver='C04.cpp', link=True),
 'C05': dict(files=['LevelSet.cpp', 'Mesh.cpp', 'Hole.cpp'], specs=['mesh.spec', 'levelset.spec', 'polygon.spec', 'levelset_ctor.spec'], driver='C05.cpp', link=True),
 'C06': dict(files=['LevelSet.cpp', 'Mesh.cpp'], specs=['mesh.spec', 'levelset.spec'], driver='C06.cpp', link=True),
 'C07': dict(files=['LevelSet.cpp', 'Mesh.cpp'], specs=['mesh.spec', 'levelset.spec'], driver='C07.cpp', link=True),
 'C08': dict(files=['LevelSet.cpp', 'Mesh.cpp'], specs=['mesh.spec', 'levelset.spec', 'polygon.spec'], driver='C08.cpp', link=True),
 'C12': dict(files=['Boundary.cpp', 'Mesh.cpp'], specs=['mesh.spec', 'boundary.spec'], driver='C12.cpp', link=True),
 'C13': dict(files=['Boundary.cpp', 'Mesh.cpp'], specs=['mesh.spec', 'perimeter.spec', 'boundary.spec'], driver='C13.cpp', link=True),
 'C14': dict(files=['LevelSet.cpp', 'Boundary.cpp', 'Mesh.cpp'], specs=['mesh.spec', 'levelset.spec', 'boundary.spec', 'area.spec'], driver='C14.cpp', link=True, cxxflags=['-D_GLIBCXX_DEBUG'],
   assume=['std::sort permutes the range into the order of the comparator (its requirement, a strict weak order, is an obligation); the run-time replay is built with the checked standard library']),
 'C15': dict(files=['Boundary.cpp', 'Mesh.cpp'], specs=['mesh.spec', 'levelset.spec', 'boundary.spec', 'normals.spec'], driver='C15.cpp', link=True),
 'C16': dict(files=['Boundary.cpp', 'Mesh.cpp'], specs=['mesh.spec', 'boundary.spec'], driver='C16.cpp', link=True),
 'C11': dict(files=['FastMarchingMethod.cpp', 'Heap.cpp', 'LevelSet.cpp', 'Mesh.cpp'], specs=['mesh.spec', 'heap.spec', 'levelset.spec', 'fmm.spec'], driver='C11.cpp', link=True),
 'C20': dict(files=['LevelSet.cpp'], specs=['rng.spec'], driver='C20.cpp', link=True,
   assume=['std::mt19937 and the standard distributions are deterministic functions of their state (rng.spec: mt_seed, nd_*, ur_*, ui_*); a normal distribution returns mean + deviation * (standard normal variate); uniform variates are in the stated range']),
 'C09': dict(files=['FastMarchingMethod.cpp', 'Heap.cpp', 'LevelSet.cpp', 'Mesh.cpp'], specs=['mesh.spec', 'heap.spec', 'levelset.spec', 'fmm.spec', 'velocity.spec'], driver='C09.cpp', link=True),
 'C10': dict(files=['LevelSet.cpp', 'Mesh.cpp'], specs=['mesh.spec', 'levelset.spec', 'gradient.spec'], driver='C10.cpp', link=True),
 'C22': dict(files=['LevelSet.cpp', 'Mesh.cpp'], specs=['mesh.spec', 'heap.spec', 'levelset.spec', 'fmm.spec', 'velocity.spec', 'rng.spec', 'noise.spec'], driver='C22.cpp', link=True),
 'C19': dict(files=['InputOutput.cpp'], specs=['io.spec'], driver='C19.cpp', link=True, cxxflags=['-D_GLIBCXX_DEBUG'],
   assume=['the C and C++ file functions behave as vc/stdio.py models them: fopen/fclose, fprintf (text, %lf, %d), std::ostream::write, std::getline and >> of numbers, std::istream::read; %d prints an unsigned below 2^31 in decimal, %lf rounds to six decimals and >> reads back the number printed',
           'the contents of an input file are those of the file of that name (in_num, in_bin); every write succeeds once the file is open']),
 'C21': dict(files=['Optimise.cpp'], specs=['optimise.spec'], driver='C21.cpp', link='all', cxxflags=['-D_GLIBCXX_DEBUG'],
   assume=['NLopt is not installed: sources are parsed against the stand-in drivers/stub/nlopt.hpp, and vc/nlopt.py says what the optimiser may do (any answer within the bounds it was given, with a non-zero multiplier of the objective; any number of calls back; exceptions)',
           'callbackWrapper (reinterpret_cast of the wrapper) and the registration of the functions with NLopt are exercised by the driver only',
           'every function has a free point of positive length and non-zero sensitivity; side limits lie between -maxDisplacement and maxDisplacement; one solve() per Optimise object; at most 25 constraints',
           'NOT proved: that the loop of optimisation attempts ends (an attempt that throws is repeated)']),
}
