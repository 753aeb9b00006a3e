import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,**({'state':state} if state else {}),mechanism=mech,observe_at=observe,hook_needed=hook)))
m=lambda n,w:dict(name=n,where=w)
PERM='poseidon-permutation/src/permutation.rs'; R1='poseidon-permutation/src/r1cs.rs'; PR='poseidon377/src/params/rate_%d.rs'
RATES=['poseidon377/src/params/rate_%d.rs'%i for i in range(1,8)]
p('C01','hash_1..hash_7 compute the specified Poseidon-377 digest on every input',
 'For every rate from 1 to 7, every domain separator and every tuple of field elements, the hash returns exactly the digest that the Poseidon specification defines for the documented instance: state = domain separator followed by the inputs in order, full / partial / full rounds with x^17, the Cauchy MDS matrix and the transcript-derived round constants, second state word emitted. It never panics, and no input (zero, extreme, repeated or otherwise special) is treated differently from what the specification says.',
 ['inputs'],'all (rate, domain separator, input tuple): q^2 .. q^8 states, including values that make an intermediate state word special in any round',
 'Tests compare about four fixed input vectors for rates 1-6 and random tuples for rate 4; nothing pins rate 7 natively or any special value, so a value-gated or position-gated deviation passes.',
 ['poseidon377/src/hash.rs',PERM,'poseidon377/src/lib.rs']+RATES,
 [m('state layout and digest selection','poseidon377/src/hash.rs hash_1..hash_7; permutation.rs n_to_1_fixed_hash'),m('optimized permutation','permutation.rs permute')],
 ['return value of hash_1..hash_7'])
p('C02','Optimized and textbook permutations agree on every state',
 'For every shipped parameter set and every input state, the optimized permutation and the unoptimized (textbook) permutation end in the same full output state, every word of it, and return the same digest.',
 ['inputs'],'all states of widths 2..8 for the seven shipped parameter sets, every word of the result',
 'Tests compare only word 1, on random states of rate 4 and two fixed rate-2 vectors; the other words, the other rates and special intermediate states are unconstrained.',
 [PERM]+RATES,
 [m('permute / unoptimized_permute','permutation.rs'),m('M_i, v_collection, w_hat_collection, optimized_arc','poseidon377/src/params/rate_*.rs')],
 ['Instance::output_words','Instance::n_to_1_fixed_hash','Instance::unoptimized_n_to_1_fixed_hash'])
p('C03','The permutation honours every supplied parameter set, not only the shipped ones',
 'A caller who builds an instance from a parameter set of their own (any width 2 to 8, even number of full rounds, at least one partial round, any positive exponent or the inverse S-box with 0 mapped to 0, any matrices and constants) gets exactly the permutation those parameters describe, textbook form from the textbook fields and optimized form from the optimized fields. Consistent parameter sets make the two forms agree.',
 ['configurations','inputs'],'all parameter sets (width, round numbers, S-box, matrices, constants) times all states',
 'Tests only ever use shipped sets (one width per const), so hard-coded widths, exponents or round counts, or a form that reads the wrong field, are invisible.',
 [PERM,'poseidon-parameters/src/v1.rs','poseidon-parameters/src/mds_matrix.rs','poseidon-parameters/src/arc_matrix.rs'],
 [m('rounds / alpha / matrices read from parameters','permutation.rs permute, unoptimized_permute, *_sub_words, mix_layer_*')],
 ['Instance::output_words'])
p('C04','In-circuit hash equals the native hash for every input and every allocation mode',
 'For every rate, every input and every way of supplying the domain separator and inputs to the circuit (constants, public inputs, witnesses, derived expressions, the same variable used twice, any mixture), synthesis succeeds, the digest variable carries the native digest, and the honest assignment satisfies all constraints.',
 ['inputs','configurations'],'all inputs times all 3^t (and aliased / derived) allocation patterns for widths 2..8, all optimisation goals',
 'The Groth16 tests use one allocation pattern (constant separator, witness inputs) on a few random inputs.',
 ['poseidon377/src/r1cs.rs',R1,'poseidon377/src/hash.rs'],
 [m('InstanceVar::permute mirrors the textbook permutation on variables','poseidon-permutation/src/r1cs.rs')],
 ['FqVar::value()','ConstraintSystemRef::is_satisfied'])
p('C05','No assignment satisfies the circuit with a digest other than the true one',
 'Once the domain separator and input variables are fixed, the constraints determine every internal wire and the digest: no assignment of the remaining wires satisfies the constraint system with a digest different from the native hash of those inputs, for any allocation mode.',
 ['inputs','configurations'],'all assignments to all wires, for all inputs and allocation modes',
 'Tests try a single wrong digest with an otherwise honest witness; a missing or weakened constraint that needs a forged internal wire is never exercised.',
 ['poseidon377/src/r1cs.rs',R1],
 [m('pow_by_constant multiplication constraints and linear layers','poseidon-permutation/src/r1cs.rs full_sub_words, partial_sub_words, mix_layer_mds')],
 ['constraint matrices of the synthesized circuit'])
p('C06','The circuit does not depend on the values being hashed and works in setup mode',
 'For a given rate and allocation pattern, synthesis yields the same constraint system (same counts and same matrices) for every assignment, and also in setup mode where no values exist; synthesis never needs a witness value.',
 ['inputs','configurations'],'all values (including missing ones) times all allocation patterns and rates',
 'Tests synthesize with a handful of values and use stored proving keys; the setup-mode path is an ignored test.',
 ['poseidon377/src/r1cs.rs',R1],
 [m('no value inspection during synthesis','poseidon-permutation/src/r1cs.rs')],
 ['ConstraintSystemRef::to_matrices, num_constraints, num_instance_variables, num_witness_variables'])
p('C07','Results never depend on earlier calls or on instance reuse',
 'Any hash call, optimized or unoptimized, in or out of circuit, gives the same result after any history of other calls, on a fresh instance or on one reused after any sequence of other operations. Reading the output words changes nothing, shows exactly the state of the last permutation on that instance, and is all zero before the first.',
 ['histories'],'all sequences of operations on any number of instances',
 'Every test makes one call on a fresh instance, so stale state, a cache or a counter never shows.',
 [PERM,'poseidon377/src/hash.rs',R1],
 [m('every word of the state is overwritten before permuting','permutation.rs n_to_1_fixed_hash, unoptimized_n_to_1_fixed_hash')],
 ['return values and output_words along a history'],
 state=[dict(name='state_words',meaning='inner state kept between calls on one instance',where=PERM)])
p('C08','Concurrent hashing gives every thread the sequential result',
 'Hash calls made at the same time from several threads, including the very first ones in a process, each return what they would return alone, under every interleaving, with no deadlock or panic.',
 ['schedules'],'all interleavings of concurrent hash calls, starting from a fresh or a warmed-up process',
 'No test runs two hashes concurrently under a controlled schedule; a lazily filled global or shared scratch space would pass.',
 ['poseidon377/src/hash.rs','poseidon377/src/lib.rs',PERM],
 [m('no shared mutable state: constants and stack-local state only','poseidon377/src/hash.rs, permutation.rs')],
 ['return value per thread, termination'])
p('C09','Every constant shipped equals its documented derivation',
 'For every rate, every field of the shipped parameter set equals what the documented derivation yields: security level 128, exponent 17, 8 full and 31 partial rounds, the Cauchy MDS matrix, the transcript-derived round constants, and every derived optimized matrix, vector and constant (including the ones the hash itself does not read).',
 ['configurations'],'all fields and elements of all seven shipped parameter sets (about 7000 field elements)',
 'Tests reach constants only through digests; the stored inverse, hat, prime, v, w fields and the security level are never read by any test.',
 RATES+['poseidon377/src/lib.rs','poseidon-paramgen/src/round_constants.rs','poseidon-paramgen/src/mds.rs'],
 [m('generated constants','poseidon377/src/params/rate_*.rs')],
 ['RATE_1_PARAMS .. RATE_7_PARAMS fields'])
p('C10','Shipped parameter sets meet the security criteria they are built on',
 'For every rate, every square submatrix of the MDS matrix is non-singular, no infinitely long subspace trail exists by the criteria the design cites, x^17 is a permutation of the field, and the round numbers meet all the bounds for 128-bit security with the prescribed margin at minimal cost. The number of constants and collections equals what the round numbers require.',
 ['configurations'],'all square submatrices (up to 12869 for width 8), all shipped sets',
 'No test inspects the matrices or the round bounds of the shipped sets.',
 RATES+['poseidon-paramgen/src/rounds.rs'],
 [m('generated constants','poseidon377/src/params/rate_*.rs')],
 ['RATE_1_PARAMS .. RATE_7_PARAMS'])
p('C11','The permutation is a bijection on states',
 'For every shipped parameter set, and for every parameter set whose S-box exponent is coprime to the field order minus one and whose matrices are invertible, the permutation is one-to-one on states: applying the inverse rounds of the specification to an output state recovers the input state, in optimized and unoptimized form.',
 ['inputs','configurations'],'all states, all valid parameter sets',
 'Tests see one output word for a few inputs; information loss in another word or on rare states is invisible.',
 [PERM]+RATES,
 [m('invertible round functions','permutation.rs')],
 ['Instance::output_words'])
p('C12','Every argument, its position and the arity influence the digest',
 'Changing any single argument (domain separator or any input), swapping two different arguments, or moving between arities (for example appending or prepending a zero) changes the digest; in particular different domain separators give different digests for the same inputs.',
 ['inputs'],'all pairs of distinct calls over a bounded domain of values, all rates',
 'Tests never compare digests of related inputs.',
 ['poseidon377/src/hash.rs','poseidon377/src/r1cs.rs'],
 [m('argument order in the initial state','poseidon377/src/hash.rs')],
 ['return values of hash_1..hash_7'])
p('C13','Matrix containers and matrix arithmetic agree with linear algebra',
 'For every shape and content, matrix construction, element read and write, dimensions, row iteration, row extraction, transposition, element-wise product, scalar product, matrix product, dot product and identity of the generic, square, MDS, round-constant and optimized round-constant matrices give the mathematically defined result in row-major order. A write changes exactly one element and operands are never modified.',
 ['inputs','histories'],'all shapes up to 8x8 and rectangular shapes, all contents, all sequences of reads and writes',
 'Tests check a few 2x2, 2x3 and 3x3 examples; wrappers, row extraction, writes and rectangular cases beyond those are untested.',
 ['poseidon-parameters/src/matrix.rs','poseidon-parameters/src/matrix_ops.rs','poseidon-parameters/src/mds_matrix.rs','poseidon-parameters/src/arc_matrix.rs'],
 [m('row-major index arithmetic','matrix.rs get_element, set_element, transpose, mat_mul, square_mat_mul')],
 ['elements() and get_element of results'])
p('C14','Determinant, inverse, minors and cofactors are correct up to 8x8',
 'For every square matrix of size 1 to 8, the determinant is correct, the inverse is returned exactly when the determinant is non-zero and is then a two-sided inverse, and a singular matrix gives an error value rather than a panic or a wrong matrix. For sizes 2 to 8 the matrix of minors and, for all sizes, the checkerboard sign matrix are correct.',
 ['inputs'],'all square matrices of sizes 1..8 over the field',
 'Tests check determinants of a few small or singular matrices and inverses up to 3x3; the sizes 4 to 8 used for real parameters and singular corner cases are not covered.',
 ['poseidon-parameters/src/matrix.rs','poseidon-parameters/src/matrix_ops.rs'],
 [m('Laplace expansion, adjugate','matrix.rs determinant, minor_matrix, inverse, cofactors')],
 ['results of determinant, inverse, minors, cofactors'])
p('C15','Ill-shaped matrices and products are rejected, never silently computed',
 'Constructing a matrix whose declared element count differs from rows times columns or whose slice has another length, multiplying matrices whose inner dimensions differ or into a result of the wrong size, taking the dot product of vectors of different lengths, or constructing an MDS matrix through `MdsMatrix::new` with inconsistent size parameters panics (or fails to compile in constant evaluation) instead of producing a value. Well-shaped ones are always accepted.',
 ['inputs','configurations'],'all combinations of declared dimensions, element counts and slice lengths up to a bound',
 'Tests have one should-panic style case at most; the other guards can be dropped unnoticed.',
 ['poseidon-parameters/src/matrix.rs','poseidon-parameters/src/matrix_ops.rs','poseidon-parameters/src/mds_matrix.rs','poseidon-parameters/src/arc_matrix.rs'],
 [m('dimension checks','Matrix::new, Matrix::new_from_known, mat_mul, dot_product, MdsMatrix::new')],
 ['panic or value'])
p('C16','MDS decomposition: first row, first column, hat, inverse and transpose',
 'For every MDS matrix of size 2 to 8, the first-row tail, the first-column tail and the matrix without first row and column are exactly those parts, the transpose and the inverse are correct, and the parts re-assemble to the original matrix.',
 ['inputs'],'all matrices of sizes 2..8',
 'No test calls these operations.',
 ['poseidon-parameters/src/mds_matrix.rs'],
 [m('v, w, hat, inverse, transpose','mds_matrix.rs')],
 ['returned matrices'])
p('C17','Digests are identical in every build configuration',
 'Every supported feature combination (no_std, alloc, std, 32-bit or 64-bit arithmetic backend, arkworks, in-circuit support, parallel) and build profile compiles and yields identical digests, permutation states and parameter values for the same inputs.',
 ['configurations','inputs'],'all feature combinations and profiles times all inputs',
 'The tests run with all features on only, so code under the other combinations is never even compiled.',
 ['poseidon377/Cargo.toml','poseidon377/src/lib.rs','poseidon377/src/hash.rs',PERM,'poseidon-permutation/src/lib.rs','poseidon-parameters/src/lib.rs'],
 [m('feature gates','lib.rs cfg attributes of the three crates')],
 ['digests of a probe built in each configuration'])
p('C18','Round-number selection is secure and cost-minimal for every input',
 'For every supported security level, width, modulus and S-box, the generator returns round numbers that satisfy all statistical, interpolation and Groebner-basis bounds before the prescribed margin (+2 full, +7.5% partial rounds rounded up), and among all candidates in its search range (4 to 98 full rounds, an even number because they are split evenly around the partial rounds, and 1 to 399 partial rounds) the ones of least S-box count with ties broken towards fewer full rounds, for Poseidon and Poseidon2; levels above 256 bits are refused for Poseidon. The binary logarithm it relies on is accurate.',
 ['inputs','configurations'],'all (security level, width, modulus, S-box) in the supported range',
 'The generator crate is outside the workspace, so none of its tests run.',
 ['poseidon-paramgen/src/rounds.rs','poseidon-paramgen/src/utils.rs','poseidon-paramgen/src/input.rs'],
 [m('search loop and bounds','rounds.rs v1_generate, v2_generate, is_secure_*')],
 ['returned RoundNumbers'])
p('C19','S-box exponent selection picks the cheapest valid exponent',
 'For every prime field, the generator picks the first exponent, in order of shortest addition chain length and descending within a length, that is odd and coprime to the field order minus one; when none exists it returns the inverse S-box if allowed and refuses otherwise.',
 ['inputs'],'all primes p',
 'The generator crate is outside the workspace, so none of its tests run.',
 ['poseidon-paramgen/src/alpha.rs'],
 [m('addition-chain ordered search','alpha.rs generate')],
 ['returned Alpha'])
p('C20','Round-constant generation is the documented transcript for every choice',
 'For every security level, width, modulus, S-box and round numbers, the generated round constants are the documented Merlin transcript outputs reduced modulo the field order, in order and in the right number (Poseidon: rounds times width, Poseidon2: full rounds times width plus partial rounds), bound to every parameter. The optimized constants derived from any constants, matrix and round numbers make the optimized permutation equal to the textbook one.',
 ['inputs','configurations'],'all parameter choices, all constant and MDS matrices',
 'The generator crate is outside the workspace, so none of its tests run.',
 ['poseidon-paramgen/src/round_constants.rs','poseidon-paramgen/src/transcript.rs'],
 [m('transcript domain separation and challenge bytes','transcript.rs'),m('backward propagation of constants','round_constants.rs generate_optimized')],
 ['returned matrices of constants'])
p('C21','S-box and round-number descriptors are faithful',
 'The byte encoding of an S-box choice is the little-endian 32-bit exponent, or minus one for the inverse; its numeric value is the exponent, or -1.0 for the inverse. Round numbers report the full, partial and total counts they were built with, mutation through a returned reference changes exactly that count, and comparison and copying of S-box choices and of round numbers follow the contents.',
 ['inputs','histories'],'all exponents and round numbers, all sequences of mutations',
 'No test in the workspace reads these values.',
 ['poseidon-parameters/src/alpha.rs','poseidon-parameters/src/round_numbers.rs'],
 [m('to_bytes_le, From<Alpha> for f64, accessors','alpha.rs, round_numbers.rs')],
 ['returned bytes, numbers'])
p('C22','The generator derives matrices as documented for every width and modulus',
 'For every width and every field of at least 128 bits the generator builds the documented Cauchy matrix 1/(x_i + y_j), and for any invertible matrix with invertible M_hat it builds the documented decomposition: M_hat, v, w, M_00, M_prime, M_doubleprime, the inverses, M_i and one v and one w_hat per partial round. The Poseidon2 internal matrix (widths 2 and 3) and external matrix (widths divisible by 4) are the documented ones. A whole Poseidon or Poseidon2 set holds the level asked for, the S-box and round numbers the generator selects, the transcript constants and these matrices; the sets of widths 2 to 8 at level 128 over decaf377 are the shipped ones. Fields below 128 bits, widths without a matrix and singular internal matrices are refused.',
 ['inputs','configurations'],'all widths, moduli, levels, round numbers, all matrices',
 'The generator crate is outside the workspace and does not compile, so nothing runs.',
 ['poseidon-paramgen/src/mds.rs','poseidon-paramgen/src/v2/internal.rs','poseidon-paramgen/src/v2/external.rs','poseidon-paramgen/src/v1.rs','poseidon-paramgen/src/v2.rs'],
 [m('fixed_cauchy_matrix, generate_optimized, calc_equivalent_matrices, prime, doubleprime','mds.rs'),m('generate','v1.rs, v2.rs, v2/internal.rs, v2/external.rs')],
 ['returned matrices and parameter sets, once the sizes are erased from the types'])
p('C23','The circuit honours every supplied parameter set, every word, repeatedly',
 'A caller who builds a circuit from a parameter set of their own (any width 2 to 8, even number of full rounds, any positive exponent, any matrix and constants) gets exactly the textbook permutation those parameters describe: InstanceVar::n_to_1_fixed_hash returns its second word, InstanceVar::permute leaves all its words in state_words and applied again permutes again. The honest assignment satisfies the constraints, no assignment satisfies them with other words once the inputs are fixed, and synthesis is the same for all values and in setup mode.',
 ['configurations','inputs'],'all parameter sets times all states times all allocation and sharing patterns times all numbers of repetitions',
 'Tests synthesize only the shipped sets and look at the digest alone, so hard-coded widths, exponents or round counts in the circuit, or words that only a repeated permutation shows, are invisible.',
 [R1,'poseidon-parameters/src/v1.rs'],
 [m('rounds, exponent, constants and matrix read from parameters','r1cs.rs InstanceVar::permute, full_sub_words, partial_sub_words, mix_layer_mds')],
 ['InstanceVar::state_words','FqVar::value()','constraint matrices of the synthesized circuit'])
p('C24','Matrices and parameter sets are compared and copied word for word',
 'Two matrices (generic, square, MDS, round constants, optimized round constants) or two collections of optimized matrices compare equal exactly when all their words are equal, however each came about. A clone, or the target of clone_from, of a matrix, a collection or a parameter set (Poseidon or Poseidon2) holds every word, the security level, the exponent and the round numbers of the original, and writing to one leaves the other alone.',
 ['inputs','histories'],'all pairs of contents of all shapes, all parameter sets',
 'Tests compare a few matrices that differ in the first words or not at all, and clone nothing, so a comparison or copy that leaves out a field, a row or high limbs passes.',
 ['poseidon-parameters/src/matrix.rs','poseidon-parameters/src/arc_matrix.rs','poseidon-parameters/src/mds_matrix.rs','poseidon-parameters/src/v1.rs','poseidon-parameters/src/v2.rs'],
 [m('PartialEq and Clone of Matrix, SquareMatrix, ArcMatrix, OptimizedArcMatrix, MdsMatrix, OptimizedMdsMatrices; Clone of PoseidonParameters','poseidon-parameters/src')],
 ['results of ==, !=, clone and clone_from'])
p('C25','Emitted parameter code denotes exactly the generated parameters',
 'For every level, every list of distinct widths of at least two and every prime field (of a modulus above ten), the code the generator emits for Poseidon compiles against the interface it is written for, and contains one function rate_N per width N+1 of the list that evaluates to the generated parameter set: level, width, S-box, round numbers, round constants, matrix, optimized constants and every matrix of the optimized decomposition, word for word and in shape, whatever words the matrices hold. The set emitted for a width is the one generated for that level, width, modulus and permission to use the inverse.',
 ['inputs','configurations'],'all parameter sets with at least one partial round, all lists of widths, all fields',
 'The generator crate is outside the workspace, so nothing emits, compiles or reads back any code.',
 ['poseidon-paramgen/src/poseidon_build.rs'],
 [m('v1_compile and the Display implementations of alpha, matrices, constants and optimized matrices','poseidon_build.rs')],
 ['value of the emitted functions after compilation'])
import re
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
