import json
def P(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=obs or [],hook_needed=None))
G='generator/ostei/'; S='skel/simint/'
L=[
P('P01','Every generated ERI function computes exactly the integral class it names',
 "For every quartet of angular momenta the generated library supports, the ERI routine selected for it returns, for every Cartesian component in the documented order (row-major over the four centres, each shell in lexicographic x,y,z order), the electron repulsion integral defined by the shells' exponents, coefficients and centres. This holds identically in the input data: it does not depend on which centres coincide, on which recurrence path the generator chose, or on whether the quartet is computed directly or by permuting another quartet. The value is the sum over all primitive combinations of the contracted shells.",
 ['inputs','configurations'],"all angular momentum quartets the generator accepts, all component indices, all exponents / centres / coefficients",
 "The reference files hold a few molecules with s..f shells compared to a tolerance, only for the unpermuted default build; an error in a component whose reference value is small, or at an angular momentum or geometry absent from the files, passes.",
 [G+'OSTEI_Writer.cpp',G+'OSTEI_VRR_Writer.cpp',G+'OSTEI_HRR_Writer.cpp',G+'OSTEI_VRR_Algorithm_Base.cpp',G+'OSTEI_HRR_Algorithm_Base.cpp',G+'Makowski.hpp','generator/Ordering_Psi4.cpp',S+'ostei/ostei_general_vrr.c',S+'ostei/ostei_general_hrr.c','skel/ostei_s_s_s_s.c'],
 [('recurrence step planning',G+'OSTEI_VRR_Algorithm_Base.cpp, '+G+'OSTEI_HRR_Algorithm_Base.cpp'),('code emission',G+'OSTEI_Writer.cpp'),('permuted quartets',G+'OSTEI_Writer.cpp (permutation wrappers)')],
 obs=['output array of simint_compute_eri']),
P('P02','First-derivative routines return the true gradient with respect to every centre',
 "For every supported quartet, the first-derivative routine returns for each Cartesian component twelve numbers: the derivatives of that integral with respect to the x, y, z coordinates of the first, second, third and fourth centre, in that order. They equal the derivative of the defining integral with the centres treated as independent even where centres or shells coincide. Consequently the three derivatives along each axis obtained by summing over the four centres vanish.",
 ['inputs','configurations'],"all angular momentum quartets, all components, all twelve derivative directions, all shell data including coinciding shells",
 "The only derivative reference data has s and p shells of one molecule in the default build; no test looks at d or f derivatives in the other recurrence configurations, and one centre is always obtained by subtraction, so an error there cancels in simple sum checks.",
 [G+'OSTEIDeriv1_Writer.cpp',G+'ostei_deriv1_generator.cpp',G+'OSTEI_HRR_Algorithm_Base.cpp',G+'OSTEI_VRR_Algorithm_Base.cpp',S+'recur_lookup.c',S+'shell/shell.c'],
 [('forming derivatives from raised and lowered quartets, omitted centre by translational invariance',G+'OSTEIDeriv1_Writer.cpp'),('per-primitive factors 2*exponent',S+'shell/shell.c')],
 obs=['output array of simint_compute_eri_deriv']),
P('P03','Batched shell pairs: each primitive quartet lands once in its own shell quartet',
 "When many shell pairs are computed in one call, the result for each shell quartet is the sum over exactly the primitive pairs of its own bra pair and its own ket pair, each counted once, and is the same as computing that quartet alone. This is independent of how many pairs there are, of their primitive counts, of padding, of vector width, and of clipping the bra or ket to a leading subset, in which case exactly the leading pairs are computed. The call returns the number of shell quartets computed.",
 ['inputs','configurations'],"all lists of primitive counts on bra and ket, all clip values, all vector widths, all integral and derivative classes",
 "The tests use bras with one shell pair and fixed ket batch sizes on one basis set, so most alignments of shell boundaries against vector lanes and batch boundaries never occur.",
 [G+'OSTEI_Writer.cpp',G+'OSTEIDeriv1_Writer.cpp','skel/ostei_s_s_s_s.c',S+'shell/shell.c',S+'vectorization/intrinsics_sse.h',S+'vectorization/intrinsics_avx.h',S+'vectorization/intrinsics_avx512.h',S+'vectorization/intrinsics_scalar.h'],
 [('vector loop with shell offsets and lane mask',G+'OSTEI_Writer.cpp'),('per-lane contraction',S+'vectorization/intrinsics_*.h'),('padding of primitive arrays',S+'shell/shell.c')],
 state=[('nshell12_clip','number of leading pairs to compute',S+'shell/shell.h'),('nprim12','primitive pairs per shell pair',S+'shell/shell.h')],
 obs=['output array and return value of the ERI and derivative calls']),
P('P04','A shell-pair object describes exactly its primitive pairs, whatever its history',
 "After building a shell-pair object from a list of shell pairs it holds, for each pair in order, every combination of primitives exactly once (for a shell paired with itself each unordered combination once, off-diagonal ones with double weight), with the product centre, exponents, distances and weights of that combination, and neutral zero-weight filler wherever storage is padded. This is so whether the object is fresh, was built before with a larger or smaller list or another screening mode, or was freed and reused; building never modifies the source shells. With screening requested the combinations of each pair are in non-increasing order of their screening value and the recorded maximum is the largest of them.",
 ['inputs','histories','configurations'],"all lists of shells (including repeated shells and equal pairs), all screening modes, all sequences of build / rebuild / free on the same object, all vector widths",
 "Tests build each object once from a fresh state with screening off, and only look at final integrals of a few molecules.",
 [S+'shell/shell.c',S+'shell/shell.h',S+'shell/shell_screen.c',S+'vectorization/vectorization.h'],
 [('allocation and pointer layout',S+'shell/shell.c'),('fill, padding and sorting',S+'shell/shell.c')],
 state=[('memsize/ptr','owned block, grown but never shrunk',S+'shell/shell.h')],obs=['public members of the shell-pair structure']),
P('P05','Concatenating shell-pair objects equals building them in one go',
 "Combining any sequence of existing shell-pair objects of one angular momentum class gives an object that lists exactly the shell pairs of the inputs, in order, with the same primitive data, counts, filler and screening values as the inputs hold, replacing whatever the destination held before. Using it gives the same integrals as using the inputs one by one. The inputs are unchanged.",
 ['inputs','histories','configurations'],"all numbers and sizes of inputs, all primitive counts, all previous contents of the destination, all screening modes and vector widths",
 "No test calls the concatenation functions at all.",
 [S+'shell/shell.c',S+'shell/shell.h'],[('copying of per-primitive arrays with re-padding',S+'shell/shell.c (cat functions)')],obs=['public members of the combined structure','integrals computed from it']),
P('P06','Screening never drops a primitive quartet that reaches the tolerance',
 "With a positive tolerance, every primitive quartet whose product of bra and ket screening values is at least the squared tolerance is included in the result, a quartet that is left out contributes nothing at all, and the call reports that everything was skipped only if no primitive quartet could reach the tolerance. With a zero tolerance nothing is skipped. Exact (Schwarz) screening values are the self-repulsion integrals of the primitive pairs, so the error of a screened integral is bounded by the number of skipped primitive quartets times a small multiple of the tolerance.",
 ['inputs','configurations'],"all screening values a shell-pair object can hold, all tolerances, all batch shapes, both screening methods, shells of all angular momenta, plain and derivative integrals",
 "The correctness tests run with screening off; the screening program only prints statistics and already stops early for several inputs.",
 [S+'shell/shell_screen.c',S+'shell/shell.c',S+'ostei/ostei.c',G+'OSTEI_Writer.cpp',G+'OSTEIDeriv1_Writer.cpp','skel/ostei_s_s_s_s.c',S+'vectorization/intrinsics_sse.h',S+'vectorization/intrinsics_avx.h'],
 [('per-vector skip test',G+'OSTEI_Writer.cpp'),('whole-call skip test',S+'ostei/ostei.c'),('screening values',S+'shell/shell_screen.c')],obs=['output array, return value, screening array']),
P('P07','Integral calls stay inside their buffers and depend only on their inputs',
 "With a workspace of the size the library reports for the derivative order and maximum angular momentum, and an output array of quartets times components (times twelve for gradients), no call writes outside those two arrays or modifies its inputs. The result does not depend on what the workspace or the output array contained before, nor on any earlier call. Reported workspace sizes never decrease with angular momentum and the byte size is eight times the element count.",
 ['inputs','histories','configurations'],"all classes, batch shapes and clips, all previous buffer contents, all preceding calls, all recurrence configurations and vector widths",
 "Tests allocate generously, reuse one buffer, and would not notice a small overrun or a stale value that happens to be zero.",
 [G+'OSTEI_Writer.cpp',G+'OSTEIDeriv1_Writer.cpp','create.py','skel/ostei_s_s_s_s.c',S+'ostei/ostei_general_hrr.c',S+'ostei/ostei_general_vrr.c',S+'simint_eri.c'],
 [('workspace partition',G+'OSTEI_Writer.cpp'),('reported maximum',"create.py (WORK SIZE log lines)")],obs=['memory around work and output buffers','input structures','bitwise result']),
P('P08','Generator options change the form of the code, never the integrals',
 "For every choice of the thresholds for external and general recurrence code, of the permutation threshold and of the maximum angular momentum and derivative order, the generated routines return the same integrals for the same shells. In particular any recurrence step emitted inline, as a separate function, or as a call to the general routine is the same function of its inputs.",
 ['configurations','inputs'],"all combinations of the generator's threshold options, all recurrence steps, all inputs",
 "Three fixed option sets are built, each with its own reduced set of angular momenta; mixed thresholds and most permutation settings are never generated.",
 ['create.py',G+'OSTEI_VRR_Writer.cpp',G+'OSTEI_HRR_Writer.cpp',G+'OSTEI_Writer.cpp',G+'ostei_vrr_generator.cpp',G+'ostei_hrr_generator.cpp','generator/CommandLine.cpp',S+'ostei/ostei_general_vrr.c',S+'ostei/ostei_general_hrr.c'],
 [('choice of step emission by threshold',G+'OSTEI_VRR_Writer.cpp, '+G+'OSTEI_HRR_Writer.cpp'),('permutation wrappers',G+'OSTEI_Writer.cpp')],obs=['integrals from libraries generated with different options']),
P('P09','A generated source tree is complete and builds for every advertised limit',
 "For every option set the generator accepts, the file list for each derivative order and maximum angular momentum names exactly files that were generated, and building the library with any advertised limit yields one that defines every routine it refers to. A routine exists for every quartet within the limits, and it is declared exactly once, whatever number of parallel generator processes ran. If a generator program fails, the run as a whole reports failure.",
 ['configurations','schedules','fault_sequences'],"all option sets, all limits up to the generated ones, all interleavings of parallel generators, any failing generator program",
 "The build script uses three option sets at their full limits with one process, and works around known failures.",
 ['create.py',G+'ostei_generator.cpp',G+'ostei_deriv1_generator.cpp',G+'ostei_vrr_generator.cpp',G+'ostei_hrr_generator.cpp',G+'OSTEI_VRR_Writer.cpp',S+'CMakeLists.txt'],
 [('collection of required helper files from generator logs','create.py'),('per-limit file lists','create.py')],obs=['files written','file lists','undefined symbols of the built library','exit status']),
P('P10','Dispatch reaches the routine of exactly the requested class',
 "After initialisation, a call for given angular momenta and derivative order runs exactly the routine generated for that ordered quartet and order, with the bra and ket, the tolerance and the buffers passed through unchanged (the tolerance squared), and returns its result. This holds for every quartet up to the library's limits, for libraries limited to lower angular momentum or derivative order, and after any sequence of repeated initialisation and finalisation.",
 ['inputs','configurations','histories'],"all quartets up to the largest supported angular momentum, both derivative orders, all limits, all init/finalize sequences",
 "Tests only reach quartets up to f shells, and a swapped entry whose routine has the same shape is not exposed by symmetric data.",
 [S+'ostei/ostei_init.c',S+'ostei/ostei_deriv1_init.c',S+'ostei/ostei.c',S+'simint_eri.c',S+'simint_init.c','python/gen_fill.py'],
 [('function table filled at initialisation',S+'ostei/ostei_init.c, '+S+'ostei/ostei_deriv1_init.c'),('table lookup',S+'ostei/ostei.c')],obs=['which routine runs and with what arguments']),
P('P11','ERIs are accurate to near machine precision over the whole parameter range',
 "For normalised or unnormalised shells with any exponents from diffuse to tight and any distances, the computed integrals agree with the exact value to within a small multiple of double precision relative to the largest primitive-level magnitude of the class. This includes arguments at and around the switch between the two regimes of the Boys function and lanes of one vector falling in different regimes. The result is never NaN or infinite for such inputs.",
 ['inputs','configurations'],"all exponents and distances (Boys arguments from zero to very large, including the switching point), all orders up to the library limit, all vector widths",
 "Reference molecules sample ordinary exponents and distances; the comparison ignores NaN and the switching region is hit by accident only.",
 [S+'boys/boys.h',S+'boys/boys_taylor.h',S+'boys/boys_long.h',S+'boys/boys_longfac.h',S+'boys/boys_shortgrid.c',S+'boys/boys_shortgrid.h',S+'shell/shell.c'],
 [('Taylor grid / asymptotic split and downward recursion',S+'boys/boys.h'),('tables',S+'boys/boys_shortgrid.c, '+S+'boys/boys_longfac.h')],obs=['Boys values and integrals']),
P('P12','General recurrence routines and index tables are exact up to their highest order',
 "The general vertical and horizontal recurrence routines produce, for any angular momentum on any of the four centres up to the table limit, exactly the next-higher integrals defined by the recurrence relations, for all requested auxiliary orders. The index tables they use list every Cartesian component of each shell once in lexicographic order, with raised and lowered neighbours pointing to the right component and absent neighbours marked absent.",
 ['inputs'],"all angular momenta up to the table limit, all centres, all components, all auxiliary orders, all input values",
 "The tests reach f shells only, where a few hundred of the table entries are used and the second and fourth centre variants hardly at all.",
 [S+'ostei/ostei_general_vrr.c',S+'ostei/ostei_general_hrr.c',S+'ostei/ostei_general.h',S+'recur_lookup.c',S+'recur_lookup.h',S+'ostei/recur_lookup.c','python/gen_recurinfo.py'],
 [('general recurrences',S+'ostei/ostei_general_vrr.c, '+S+'ostei/ostei_general_hrr.c'),('index tables',S+'recur_lookup.c')],obs=['arrays written by the routines','table contents']),
P('P13','All vector instruction sets give the same results',
 "For every supported instruction set the lane operations used by the library (load with mask, per-lane accumulation into different destinations, scaled accumulation, minimum, maximum, arithmetic) have the same meaning, independent of lane position. Libraries generated from the same source and built for different instruction sets return the same integrals up to rounding for every input.",
 ['configurations','inputs'],"all instruction sets that run here, all lane offsets, counts and values, all integral classes",
 "Each tested build uses one instruction set with its own limits and data; results are never compared across instruction sets and the helper functions are not tested directly.",
 [S+'vectorization/intrinsics_scalar.h',S+'vectorization/intrinsics_sse.h',S+'vectorization/intrinsics_avx.h',S+'vectorization/intrinsics_avx512.h',S+'vectorization/vectorization.h'],
 [('lane helpers',S+'vectorization/intrinsics_*.h')],obs=['results of the helpers','integrals per instruction set']),
P('P14','One-electron routines return the defined overlap, kinetic and nuclear integrals',
 "The overlap, kinetic-energy and nuclear-attraction routines return, for every pair of shells and every Cartesian component pair in row-major order, the integral defined by the contracted shells, and for nuclear attraction the sum over all given charges with the physical (negative) sign. Results depend only on the inputs, for any exponents, centres (coinciding or not), coefficients and number of charges including none.",
 ['inputs'],"all angular momentum pairs, exponents, centres, coefficients, charges",
 "The programs for these integrals are only checked for their exit status; no value is compared.",
 [S+'osoei/osoei_overlap.c',S+'osoei/osoei_ke.c',S+'osoei/osoei_potential.c',S+'osoei/osoei_terms.c',S+'simint_oneelectron.c',S+'recur_lookup.c'],
 [('per-direction recurrences',S+'osoei/osoei_terms.c'),('nested recurrence for potential',S+'osoei/osoei_potential.c')],obs=['output arrays']),
P('P15','Shell objects: create, copy, normalise and reuse are faithful',
 "Creating or copying a shell stores exactly the given angular momentum, centre, exponents and coefficients in memory owned by that shell alone, whatever the destination held before, and leaves the source untouched; no call reads or writes outside the memory of the shells involved. Normalising scales each shell by the factor that makes its self-overlap one for the axis-aligned function under the library's convention, independent of a common scaling of the input coefficients. The dummy shell acts as the constant function one.",
 ['inputs','histories'],"all shells, all sequences of create / copy / normalise / free on any objects",
 "Tests create each shell once and normalise it once; copying is not tested.",
 [S+'shell/shell.c',S+'shell/shell.h',S+'shell/shell_constants.c'],
 [('allocation reuse',S+'shell/shell.c'),('normalisation constants',S+'shell/shell_constants.c')],obs=['public members of the shell structure']),
P('P16','Computation is reentrant after initialisation',
 "After initialisation, integral, gradient, one-electron, shell and shell-pair calls that write distinct objects and buffers (their inputs may be shared) can run concurrently in any interleaving and each returns what it returns when run alone. Calls therefore keep no hidden mutable state: no call changes data that another call reads, other than the objects passed to it.",
 ['schedules','histories'],"all interleavings of calls from several threads, all routine classes",
 "Every test is single-threaded in its correctness part.",
 [S+'ostei/ostei.c',S+'ostei/ostei_init.c',S+'shell/shell.c',S+'shell/shell_screen.c',S+'osoei/osoei_potential.c',S+'boys/boys_shortgrid.c',S+'recur_lookup.c',G+'OSTEI_Writer.cpp'],
 [('all scratch data on the stack or in caller-provided work',G+'OSTEI_Writer.cpp'),('tables written only at initialisation',S+'ostei/ostei_init.c')],obs=['writable global data of the library before and after calls','results under concurrency']),
P('P17','The Fortran interface performs the same operation as the C call it wraps',
 "Every Fortran procedure of the interface, called with given arguments, has the same effect on its objects and returns the same values as the C function of that name with those arguments, for every member of the shared structures. Its structures describe the same memory as the C structures for both builds with and without derivatives.",
 ['inputs','configurations'],"all procedures of the interface, all argument values, builds with and without derivatives",
 "No test calls the Fortran interface; it is only compiled.",
 [S+'simint.f90',S+'shell/shell.h',S+'simint_eri.h',S+'simint_oneelectron.h'],
 [('interface blocks and wrapper procedures',S+'simint.f90')],obs=['structures and results after each Fortran call']),
]
with open('/verif/properties.jsonl','w') as f:
    for p in L:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in L: jsonschema.validate(p,s)
