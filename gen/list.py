prop("C01", "Every Boolean gate decides its truth table at every security level",
 "For every supported security level and any ciphertexts of bits encoded as +1/8 and -1/8, each single gate (NAND, AND, OR, XOR, XNOR, NOR, ANDNY, ANDYN, ORNY, ORYN, MUX, NOT, copy, constant) returns a ciphertext of the same shape that encodes the gate's truth-table value, independent of which inputs coincide or what was evaluated before. Every bootstrapping inside a gate sees a phase at least 1/8 away from the decision boundary for every combination of input bits.",
 ["inputs", "configurations", "histories"], "all input ciphertexts (mask and body arbitrary), all input bit combinations, all security levels",
 "The tests run each gate at one level with fresh keys and tolerate noise; a reduced margin or a gate wrong at another level passes them.",
 ["gates/gates.go", "evaluator/evaluator.go", "tlwe/tlwe.go", "trlwe/trlwe.go"],
 [("affine combination before bootstrapping", "gates/gates.go"), ("bootstrap = blind rotate, extract, key switch", "evaluator/evaluator.go Bootstrap")])
prop("C02", "Batch gates equal the single gate applied element-wise, in order",
 "For every batch length (including zero), every security level and every schedule, result i of a batch gate encodes the corresponding single gate's truth-table value of input pair i and nothing else, the result has exactly one ciphertext per input pair, and every result is complete when the call returns.",
 ["inputs", "schedules", "configurations"], "all batch lengths, positions, input ciphertexts, security levels and goroutine interleavings",
 "Only three of six batch gates are tested, on four inputs, at one level.",
 ["gates/gates.go", "trgsw/trgsw.go"],
 [("prepare / blind rotate / extract and key switch, per index", "gates/gates.go Batch*"), ("parallel blind rotation", "trgsw/trgsw.go BatchBlindRotate")])
prop("C03", "Parallel work is race-free, isolated and joined before results are used",
 "No operation that works in parallel lets two concurrent tasks, or a task and its caller, touch the same memory when one of them writes, for any input size and schedule. Every task is completed before the operation returns, and no pooled scratch object, or view of one, is used or returned after it was handed back to the pool.",
 ["schedules", "inputs", "configurations"], "all interleavings of the goroutines of key generation, batch blind rotation and batch gates, all sizes",
 "Races and pool reuse show up only under particular schedules; the tests run a few batches of four without the race detector.",
 ["trgsw/trgsw.go", "cloudkey/cloudkey.go", "gates/gates.go"],
 [("goroutine per element with WaitGroup", "trgsw/trgsw.go BatchBlindRotate; cloudkey/cloudkey.go gen*; gates/gates.go Batch*"), ("sync.Pool of polynomial evaluators", "trgsw/trgsw.go evaluatorPool")],
 tech="effect and ownership analysis over Go SSA (access/conflict, join counting, pool release)")
prop("C12", "Key switching subtracts exactly the selected key rows, for every ciphertext",
 "At every security level and for every extracted ciphertext, key and previous output contents, key switching yields the trivial ciphertext of the input body minus, for every input coefficient and every digit position, the key row selected by that digit of the rounded coefficient. Both the allocating and the in-place form give the same result.",
 ["inputs", "configurations", "histories"], "all input ciphertexts, keys, output contents and levels",
 "The tests only see key switching through noisy gate results, which tolerate a dropped digit, a missing rounding offset or a stale output cell most of the time.",
 ["trgsw/trgsw.go", "trgsw/keyswitch.go"], [("digit extraction and row selection", "trgsw IdentityKeySwitching, IdentityKeySwitchingAssign")])
prop("C13", "Gadget decomposition yields the signed digits of every coefficient",
 "At every security level, every digit of every coefficient produced by gadget decomposition is the signed base-Bg digit of that coefficient with the offset of the cloud key, most significant first, for every coefficient value. The offset stored in a cloud key is the one which makes every digit lie in [-Bg/2, Bg/2).",
 ["inputs", "configurations"], "all coefficient values, positions, levels and previous output contents",
 "A wrong digit at the edge of the range or at a level with another base only adds noise the sampled tests absorb.",
 ["trgsw/trgsw.go", "poly/decomposer.go", "cloudkey/cloudkey.go"], [("digit extraction", "poly/decomposer.go DecomposePolyAssign; trgsw/trgsw.go decomposition"), ("offset", "cloudkey/cloudkey.go genDecompositionOffset")])
prop("C14", "Negacyclic rotation and sample extraction are exact for every amount and index",
 "Multiplying a polynomial by any power of X (including zero, negative and multiples of the degree) yields every coefficient moved by that amount with its sign flipped once per wrap-around, and extracting coefficient k of a ring ciphertext yields the ciphertext whose mask is the reversed, sign-flipped mask and whose body is that coefficient, for every k. Negation may be exact or one's complement, that is, off by one unit in the last place.",
 ["inputs", "configurations"], "all polynomials, rotation amounts, extraction indices and levels",
 "The tests sample a few rotation amounts; a wrong wrap-around at a boundary amount is hit with probability about 1/N.",
 ["poly/buffer_methods.go", "trlwe/trlwe.go"], [("rotation by X^k", "poly/buffer_methods.go PolyMulWithXK*"), ("sample extraction", "trlwe/trlwe.go SampleExtractIndex, SampleExtractIndexAssign")])
prop("C15", "External product, CMUX, blind rotation and bootstrapping are exact",
 "At every security level, for every input, key and evaluator history, the external product is the sum of decomposed digits times key rows, controlled selection is in0 + c*(in1-in0), blind rotation starts from the test vector rotated by the negated rounded body and applies one controlled rotation per mask coefficient with its own key element, and bootstrapping is blind rotation, extraction of coefficient zero and key switching. The package functions, the reusable evaluator's in-place forms (also when the output is an input where that is supported) and the look-up-table forms agree.",
 ["inputs", "histories", "configurations"], "all ciphertexts, test vectors, keys, scratch contents and levels",
 "Noise hides a skipped or repeated term, and the tests use fresh evaluators at few levels.",
 ["evaluator/evaluator.go", "trgsw/trgsw.go"], [("in-place pipeline", "evaluator/evaluator.go"), ("package functions", "trgsw/trgsw.go ExternalProductWithFFT, CMUX, BlindRotate")],
 note="The Fourier transform and pointwise product are uninterpreted functions here.")
prop("C22", "Linear operations on ciphertexts are exact modulo 2^32, also in place",
 "At every security level and for every operand, addition, subtraction, negation, element-wise product, scalar multiply-add and multiply-subtract, and body access of ciphertexts are exact coefficient by coefficient modulo 2^32, including the body and including calls whose operands or output are the same ciphertext.",
 ["inputs", "configurations"], "all operand contents, scalars, sharing patterns and levels",
 "The tests exercise addition and subtraction through gates at one level; the remaining operations are untested.",
 ["tlwe/tlwe.go"], [("coefficient-wise operations", "tlwe")])

prop("C08", "Every encryption is a fresh, well-formed encryption of exactly the given message",
 "At every security level, for every key and message and for every encryption entry point (real number, Boolean, message of any modulus, polynomial, gadget), the mask consists of uniformly random coefficients used nowhere else, the body carries one fresh Gaussian error of exactly the requested deviation, and the body equals mask times key plus the encoded message plus that error. Encrypting into an object that already holds data gives the same distribution as encrypting into a fresh one.",
 ["inputs", "configurations", "histories"], "all keys, messages, deviations, levels and previous contents",
 "Decryption succeeds with a constant, reused or truncated mask, without noise, or with noise of the wrong size, so round-trip tests accept insecure ciphertexts.",
 ["tlwe/tlwe.go", "tlwe/programmable_encrypt.go", "trlwe/trlwe.go", "trgsw/trgsw.go", "utils/utils.go"],
 [("LWE encryption", "tlwe EncryptF64, EncryptBool, EncryptLWEMessage"), ("ring encryption", "trlwe EncryptF64"), ("gadget encryption", "trgsw EncryptTorus"), ("Gaussian sampling", "utils GaussianF64, GaussianTorus")])
prop("C09", "Decryption and decoding return the nearest message for every phase",
 "At every security level and for every ciphertext and key, Boolean decryption returns the sign of body minus mask times key; message decryption and decoding return the message whose code is nearest to the phase, for every message modulus, every message and every error below half a slot, including the wrap-around slot. Conversion between real numbers and torus elements is exact to one unit for every value, negative ones included.",
 ["inputs", "configurations"], "all ciphertexts, keys, message moduli, messages and admissible errors",
 "The tests decode fresh ciphertexts, whose error is far from the edge of the slot, and few moduli.",
 ["tlwe/tlwe.go", "tlwe/programmable_encrypt.go", "trlwe/trlwe.go", "lut/encoder.go", "utils/utils.go"],
 [("decryption", "tlwe DecryptBool, DecryptLWEMessage; trlwe DecryptBool"), ("encoding and decoding", "lut/encoder.go"), ("real/torus conversion", "utils F64ToTorus, TorusToF64")])
prop("C10", "Secret keys consist of independent fair bits of the right dimension",
 "At every security level each coefficient of both parts of a generated secret key is 0 or 1, decided by one unbiased random bit that decides nothing else, and the parts have exactly the dimensions of the current level.",
 ["inputs", "configurations"], "all levels and all coefficients",
 "Every gate works with a biased, repeated or constant key.",
 ["key/key.go"], [("key generation", "key/key.go NewSecretKey")])
prop("C11", "Cloud keys hold the prescribed encryption at every position",
 "At every security level and for every secret key, every row of the key-switching key encrypts the prescribed multiple of the prescribed ring-key bit under the base key, every element of the bootstrapping key is the transformed gadget encryption of the prescribed base-key bit under the ring key, each with fresh mask and the level's error deviation, and offset and test vector are those of the level. No randomness is shared between any two elements, and nothing in the cloud key contains secret key material in the clear.",
 ["inputs", "configurations", "schedules"], "all secret keys, levels, positions and worker schedules",
 "A wrong row that is rarely selected, a reused mask or a wrong deviation is invisible in sampled gate results.",
 ["cloudkey/cloudkey.go", "trgsw/trgsw.go", "tlwe/tlwe.go"],
 [("key-switching key", "cloudkey genKeySwitchingKey"), ("bootstrapping key", "cloudkey genBootstrappingKey"), ("offset and test vector", "cloudkey genDecompositionOffset, genTestVec")])
prop("C16", "Look-up tables map every message, at every admissible error, to f(message)",
 "At every security level, for every function, message modulus and message, every table entry that a phase within half a slot of the message can select, with the negacyclic wrap-around, is the code of the function's value, regardless of what the table held before. Table generation leaves the generator as it was and copies of a table equal their source.",
 ["inputs", "configurations", "histories"], "all functions, moduli, messages, admissible phases, levels and previous contents",
 "Tests evaluate a few functions on fresh ciphertexts near the middle of a slot, at a few moduli.",
 ["lut/generator.go", "lut/lut.go", "lut/encoder.go"], [("table generation", "lut/generator.go"), ("encoding", "lut/encoder.go")])
prop("C17", "Public-key encryption and proxy re-encryption preserve message and key binding",
 "At every security level a public key consists of fresh encryptions of zero, public-key encryption adds a fresh random signed combination of all of them and one fresh error to the encoded message, and every row of a re-encryption key (symmetric or asymmetric) encrypts the prescribed multiple of the source key coefficient under the target key with fresh randomness. Re-encryption subtracts exactly the rows selected by the digits of every source coefficient, for every ciphertext and every decomposition.",
 ["inputs", "configurations"], "all keys, messages, ciphertexts, decompositions and levels",
 "Decryption tests succeed with missing noise, a reused combination or a rarely selected wrong row.",
 ["proxyreenc/proxyreenc.go"],
 [("public key", "NewPublicKeyLv0WithParams, EncryptF64"), ("re-encryption key", "NewProxyReencryptionKey*"), ("re-encryption", "ReencryptTLWELv0")])
prop("C25", "Bit vectors convert, encrypt and decrypt position by position",
 "For every width, every value and every vector length, converting an integer to bits puts bit i at position i and converting back is its inverse, without loss or sign extension, and encrypting or decrypting a bit vector of any length treats element i as bit i, with fresh randomness for every element.",
 ["inputs", "configurations"], "all values, widths, vector lengths and levels",
 "The tests convert a handful of small values at few widths.",
 ["bitutils/bitutils.go"], [("conversions", "bitutils ToBits, U*ToBits, Convert*"), ("vector encryption", "bitutils EncryptBits, DecryptBits")])
prop("C07", "All secret randomness comes from the operating system's generator, fail-closed",
 "Every random value used for a key, a mask or an error is drawn from a generator whose every output is decided by fresh bytes of the operating system's cryptographic source, never by a clock, a constant or a guessable seed. When that source fails no value is produced, and two generators never share state or replay one another's output.",
 ["inputs", "configurations", "schedules"], "all draws reachable from any exported function, all call histories and interleavings, and failures of the system source",
 "Predictable or repeated randomness still encrypts and decrypts correctly, so every round-trip test passes.",
 ["utils/rng.go", "utils/utils.go", "key/key.go", "tlwe/tlwe.go", "trlwe/trlwe.go", "trgsw/trgsw.go", "cloudkey/cloudkey.go", "proxyreenc/proxyreenc.go"],
 [("generator construction", "utils/rng.go"), ("draws", "utils GaussianF64, tlwe/trlwe/key/proxyreenc callers")],
 tech="backward provenance of random generators over Go SSA, abstract interpretation of their source")
prop("C04", "Every level's parameters form one consistent set, selected by the level alone",
 "At every security level all parameter accessors describe the same set: one ring degree that is a power of two, a gadget base and digit counts that fit the 32-bit torus, one deviation per key part that is at least one torus unit, and a block count that covers the dimension; an undeclared level selects the 128-bit set. What the accessors return depends only on the level selected now, not on earlier calls, and no library operation changes the selected level or a parameter.",
 ["configurations", "histories"], "all declared levels, every undeclared value, all ordered pairs of levels, all library functions",
 "The tests check consistency at one level and a fresh process; an accessor that disagrees with the others at one level or remembers a level passes them.",
 ["params/params.go"], [("parameter sets and accessors", "params/params.go"), ("derived values", "params/params.go GetBlockCount, KSKAlpha, BSKAlpha")],
 note="Seven known findings: at SecurityUint2 to SecurityUint8 the ring deviation is below one torus unit.")
prop("C05", "Each named security level provides exactly its published parameters",
 "Selecting a named security level yields the published dimension, ring degree, error deviations, gadget base and depth, key-switching base and depth and block size of that level, and the level in force at program start is the 128-bit one.",
 ["configurations"], "all named levels and all parameters",
 "Gates still work with a smaller deviation or dimension than advertised; only security is lost.",
 ["params/params.go", "README.md"], [("published sets", "params/params.go")])
prop("C06", "Switching the security level at run time leaves nothing of the old level behind",
 "For every ordered pair of security levels, an operation performed at the second level after the library was used at the first gives exactly the result it gives in a process that only used the second level, with keys and ciphertexts of the second level. This includes objects kept or pooled by the library between calls.",
 ["histories", "configurations"], "all ordered pairs of levels, all exported operations, all contents of pools and caches left by the first level",
 "The tests fix one level per process or recreate everything; a buffer sized for the previous level is only hit after a switch.",
 ["gates/gates.go", "trgsw/trgsw.go", "evaluator/evaluator.go"], [("evaluator kept between gates", "gates/gates.go currentEval"), ("pooled evaluators", "trgsw/trgsw.go evaluatorPool, getEvaluator")],
 tech="SSA search for persistent state, abstract interpretation of its users across level pairs")
prop("C19", "Operations leave their inputs unchanged",
 "No operation changes a ciphertext, key, table, polynomial, message vector or other object passed to it as an input; only the object an operation is documented to write to, and scratch memory of the evaluator it is called on, are modified. This holds for every input and also while the operation runs in parallel with others that use the same inputs.",
 ["inputs", "histories", "schedules"], "all exported operations, all arguments, all intermediate states of a call",
 "The tests use each ciphertext once or compare only decrypted results; a key or ciphertext changed in place is noticed only by a later, unrelated operation.",
 ["gates/gates.go", "evaluator/evaluator.go", "evaluator/programmable_bootstrap.go", "trgsw/trgsw.go", "trlwe/trlwe.go", "tlwe/tlwe.go", "lut/generator.go", "poly/fourier_transform.go", "proxyreenc/proxyreenc.go"],
 [("allocating and in-place forms", "tlwe, trlwe, trgsw, evaluator, gates"), ("scratch owned by evaluators", "evaluator/buffers.go, poly/poly_evaluator.go")],
 tech="interprocedural points-to and effect analysis over Go SSA")
prop("C20", "Results belong to the caller and arguments are not retained",
 "The object an operation returns shares no memory with its arguments, with earlier or later results or with library state, except for the operations documented to return a view of an evaluator's buffers or the object they filled. No operation keeps a reference to an argument in library state or in another object after it returns.",
 ["histories", "inputs"], "all exported operations, all later calls and later modifications by the caller",
 "A shared result is correct when returned and changes only when something else is computed or written later.",
 ["gates/gates.go", "evaluator/evaluator.go", "evaluator/buffers.go", "trgsw/trgsw.go", "lut/lut.go", "lut/generator.go", "tlwe/tlwe.go", "poly/poly.go"],
 [("fresh results", "gates bootstrap, evaluator BootstrapLUT, tlwe Add/Sub/Neg, lut Copy"), ("documented views", "evaluator Bootstrap, BootstrapLUTTemp; buffer accessors")],
 tech="interprocedural points-to analysis over Go SSA")
LIN = "abstract interpretation over linear forms (exact control flow, symbolic coefficients) of Go SSA"
prop("C18", "The polynomial transforms are the negacyclic transform and its inverse",
 "For every ring degree in use, every polynomial and every previous use of the transforming object, the forward transform evaluates the polynomial at distinct primitive roots of X^N+1, one of each conjugate pair, on signed coefficients, and the inverse transform recovers from such values exactly the polynomial, rounded to the nearest torus unit. The in-place, accumulating and subtracting forms do the same to what the output held before, and no form changes the polynomial it reads unless documented.",
 ["inputs", "configurations", "histories"], "all polynomials, all ring degrees used by a level and the smaller admissible ones, all previous contents",
 "The tests transform one polynomial at one degree and tolerate a thousand units of error; a stage wrong at another degree or for large coefficients is missed.",
 ["poly/fourier_ops.go", "poly/fourier_transform.go", "poly/poly_evaluator.go"],
 [("butterfly stages and twiddle tables", "poly fftInPlace/ifftInPlace, NewEvaluator"), ("conversion and folding", "poly ToFourierPoly*, ToPoly*")],
 tech=LIN, note="Rounding errors of float64 are outside the statement (C27).")
prop("C23", "Transformed polynomials are added, scaled and multiplied lane by lane",
 "For every ring degree, every operand and every previous output, each Fourier-domain operation (addition, subtraction, negation, real and complex scaling, product, multiply-add, multiply-subtract, with constants or polynomials) computes its definition in every complex lane, also when the output is one of the operands, and the ring products built from them are the negacyclic product of the operands.",
 ["inputs", "configurations"], "all operands, lanes, degrees, constants and overlaps of output and input",
 "Most of these operations have no test; a swapped sign in one lane position of a vectorised loop survives noisy end-to-end tests.",
 ["poly/fourier_ops.go", "poly/poly_mul.go", "poly/poly_evaluator.go"],
 [("lane operations", "poly *FourierPoly*Assign"), ("ring product", "poly Mul*, evaluator Mul helpers")],
 tech=LIN)
prop("C24", "Raw-memory access stays inside the polynomial it was made for",
 "For every ring degree in use and every operation on operands of that degree, each access made through a raw-memory view stays inside the memory of the polynomial, Fourier polynomial or table it views, with the element type of that memory, and polynomials or evaluators of a degree the views cannot handle are refused at construction. The degrees accepted are exactly the powers of two from sixteen on.",
 ["inputs", "configurations"], "all operations of the polynomial package, all degrees in use and the smallest admissible ones, all raw-memory conversions in the library",
 "An access a few elements past a slice reads or damages neighbouring memory without failing a test.",
 ["poly/poly.go", "poly/fourier_ops.go", "poly/fourier_transform.go", "poly/buffer_methods.go"],
 [("8-element windows", "poly, unsafe.Pointer conversions"), ("degree checks", "poly NewPoly, NewFourierPoly, NewEvaluator")],
 tech=LIN)
prop("C21", "Evaluators and their copies are independent, and handed-out results stay intact",
 "Two evaluators, or an evaluator and a copy of it, never write memory the other one uses, so they can be used in parallel and in any order, and a copy gives the same results as a new evaluator at every security level. A result or buffer handed out from an evaluator's rotating pool stays intact until the fourth following request, whatever operations are performed in between.",
 ["histories", "schedules", "configurations"], "all operations of evaluators and copies, all pool positions, all sequences of operations between a result and its use, all levels",
 "No test copies an evaluator or keeps a result across several operations.",
 ["evaluator/evaluator.go", "evaluator/buffers.go", "evaluator/programmable_bootstrap.go", "poly/poly_evaluator.go", "poly/buffer_manager.go", "poly/buffer_methods.go"],
 [("copies with their own buffers", "evaluator Evaluator.ShallowCopy, poly Evaluator.ShallowCopy"), ("rotating pools", "evaluator BufferPool.GetNextResult; poly GetRotationBuffer, GetTRLWEBuffer")],
 tech="reachability and write sets by abstract interpretation of Go SSA (closed forms; linear forms with exact control flow)")
prop("C26", "Decryption fails with negligible probability after any supported computation",
 "At every security level, after any composition of gates, look-up tables, key switchings and re-encryptions on validly encrypted inputs, the probability that decryption yields another message than the plaintext computation is negligible.",
 ["inputs", "configurations", "histories"], "all circuits, keys, random draws and levels",
 "Failure rates of 2^-30 and below are invisible to any number of test runs.",
 ["params/params.go", "evaluator/evaluator.go"], [("parameter choice", "params/params.go"), ("noise refresh", "evaluator/evaluator.go")],
 na="A probability over random draws and a real-valued noise growth; no static rule over the source bounds it. The exact algebra it rests on is decided by C01, C12 to C18 and C23, the deviations by C04, C05 and C08 to C11.")
prop("C27", "Floating-point rounding in ring products stays below the encryption noise",
 "At every security level the float64 rounding error of an external product and of a whole blind rotation stays far below the deviation of fresh ciphertexts.",
 ["inputs", "configurations"], "all ciphertexts, keys and levels",
 "The error depends on the data and is at most a few units in sampled tests.",
 ["poly/fourier_transform.go", "poly/fourier_ops.go"], [("transforms", "poly/fourier_transform.go")],
 na="A numeric bound on accumulated float64 rounding over all data; a worst-case static bound is orders of magnitude above the observed error and would decide nothing. The transforms are decided over the reals (C18, C23).")
prop("C28", "Each level provides its advertised number of security bits",
 "Recovering a secret key or message from ciphertexts and public evaluation keys of a level takes at least the advertised amount of work.",
 ["inputs", "configurations"], "all attacks and levels",
 "Security is a statement about all adversaries.",
 ["params/params.go", "README.md"], [("parameter sets", "params/params.go")],
 na="Hardness of lattice problems is not a fact of the source text. What the source can break, the published parameters, error deviations and randomness, is decided by C04, C05 and C07 to C11.")
