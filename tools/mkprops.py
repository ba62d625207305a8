"""Writes /verif/properties.jsonl (the texts live here so that they can be edited readably)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=list(over), text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

SSM, LPV, REC = "philtorch/lti/ssm.py", "philtorch/lpv/ssm.py", "philtorch/lti/recur.py"
LPVREC, FILT, LPVF = "philtorch/lpv/recur.py", "philtorch/lti/filtering.py", "philtorch/lpv/filtering.py"
INIT = "philtorch/__init__.py"
CS = ["philtorch/csrc/host_lti_recur.cpp", "philtorch/csrc/host_lti_recurN.cpp", "philtorch/csrc/host_recurN.cpp", "philtorch/csrc/host_recur2.cpp"]
IC = ("inputs", "configurations")

prop("C01", "Time-invariant state recursion law",
 """The time-invariant state recursion returns, for every batch row and every step t, exactly h[t] = A h[t-1] + x[t] with h[-1] = zi
 (a 2-D input drives the first state only), or component out_idx of it when asked for.
 This holds for A of shape (M,M) or (B,M,M), real and complex, every state size M >= 1, every length N >= 1 and every unroll_factor >= 1,
 and equally for the compiled operators lti_recur, lti_recur2 and lti_recurN called directly.""",
 IC, "all M, N, B, unroll factors (divisors of N or not, nested blocks), out_idx, A ranks, input ranks, dtypes the operators accept",
 "Tests use a handful of (M, N, unroll_factor) triples with tolerance; the blocked algorithm has a different code path for each residue N mod K, each nesting depth, out_idx and input rank.",
 [SSM, REC, "philtorch/mat.py"] + CS[:2],
 [("sequential loop", SSM + ":_recursion_loop"), ("blocked recursion with padding and augmented matrices", SSM + ":state_space_recursion"), ("matrix_power_accumulate", "philtorch/mat.py"), ("CPU kernels", "philtorch/csrc/host_lti_recurN.cpp")],
 [("h", "state vector carried from step to step", SSM + ":_recursion_loop")], ["return value of state_space_recursion and torch.ops.philtorch.lti_recur*"])

prop("C02", "Time-invariant state-space output law",
 """The time-invariant state space returns y[t] = C h[t] + D x[t] with h[0] = zi and h[t+1] = A h[t] + B x[t], for every documented (broadcastable)
 shape of B, C, D and zi, each absent or present, and for out_idx in place of C.
 When zi is given it also returns the state after the last step, and neither unroll_factor nor the backend it selects changes any of this.""",
 IC, "all combinations of documented shapes of A, B, C, D, zi, x (2-D and 3-D), out_idx and unroll_factor, including batch sizes that coincide with M or with the feature count only as far as the shape stays unambiguous",
 "Tests use square random shapes that differ pairwise and one role at a time; the dispatch depends on coincidences of sizes and on the combination of roles.",
 [SSM, REC], [("shape dispatch of B, C and D", SSM + ":state_space"), ("_ssm_C_D", SSM)],
 [("h", "state before consuming x[t]", SSM + ":state_space"), ("zf", "state after the last sample", SSM + ":state_space")], ["return value of lti.state_space"])

prop("C03", "Parameter-varying state recursion law",
 """The parameter-varying state recursion returns, for every batch row and step t, exactly h[t] = A[t] h[t-1] + x[t] with h[-1] = zi (a 2-D input drives the first state only),
 or component out_idx of it when asked for.
 This holds for A of shape (N,M,M) or (B,N,M,M), real and complex, every M >= 1, N >= 1 and unroll_factor >= 1, and equally for the compiled operators recur2 and recurN called directly.""",
 IC, "all M, N, B, unroll factors, out_idx, A ranks, input ranks; matrices that do not commute",
 "The tests compare two block sizes with tolerance; whether products are taken in the right order shows only for non-commuting matrices at particular (composite) block sizes.",
 [LPV, "philtorch/mat.py", CS[2]], [("blocked recursion", LPV + ":state_space_recursion"), ("matrices_cumdot", "philtorch/mat.py"), ("CPU kernels", CS[2])],
 [("h", "state vector", LPV + ":_recursion_loop")], ["return value of lpv.state_space_recursion, torch.ops.philtorch.recur2/recurN"])

prop("C04", "Parameter-varying state-space output law",
 """The parameter-varying state space returns y[t] = C[t] h[t] + D[t] x[t] with h[0] = zi and h[t+1] = A[t] h[t] + B[t] x[t], for every documented (broadcastable)
 shape of B, C, D and zi - constant, per step, per batch row, or both - each absent or present, and for out_idx in place of C.
 When zi is given it also returns the state after the last step, and neither unroll_factor nor the backend it selects changes any of this.""",
 IC, "all combinations of documented shapes of A, B, C, D, zi, x, out_idx and unroll_factor, including B = N",
 "There are more than a thousand shape combinations and the existing tests sample a few of them, never with coinciding batch size and length.",
 [LPV], [("shape dispatch of B, C and D", LPV + ":state_space")],
 [("h", "state before consuming x[t]", LPV + ":state_space")], ["return value of lpv.state_space"])

prop("C05", "Scalar linear recurrence law",
 """Both scalar linear recurrences return exactly h[t] = a[t] h[t-1] + x[t], h[-1] = init, per batch row - with a constant scalar, shared or per-row coefficient (time-invariant)
 or a shared or per-row coefficient sequence (parameter-varying), a scalar, one-element or per-row initial value - for every N >= 1 and unroll_factor >= 1, real and complex.
 The comb filter built on it returns y[t] = x[t] - a y[t-delay] for every delay >= 1 and length, with zi holding the past outputs newest first, and the final state in the same order when zi is given.""",
 IC, "all N, unroll factors, coefficient/init ranks, delays smaller and larger than N",
 "Tests use one or two lengths; the blocked path depends on N mod K and on the nesting depth, the comb filter on N mod delay.",
 [REC, LPVREC, FILT], [("blocked recurrence", REC + ":linear_recurrence"), ("blocked recurrence", LPVREC + ":linear_recurrence"), ("comb_filter", FILT)],
 [("h", "previous output", REC)], ["return values of lti.linear_recurrence, lpv.linear_recurrence, lti.comb_filter, torch.ops.philtorch.lti_recur"])

prop("C06", "Time-invariant lfilter: the difference equation in every form",
 """Time-invariant lfilter from rest returns y[t] = sum_k b[k] x[t-k] - sum_k a[k] y[t-k], whatever the form (df1, df2, tdf1, tdf2), the lengths of b and a, their rank (shared or per row) and the unroll_factor,
 for real and complex coefficients. With zi, df2 interprets it as the last values of the internal signal w (newest first) and tdf2 as the register contents, and both return the final registers in the same convention.
 One-dimensional inputs give one-dimensional results.""",
 IC, "all orders of b and a (including order 0 of b, b shorter and longer than a), forms, ranks, N >= 1 (shorter than the order too), zi ranks",
 "Tests compare with scipy for random real data, N much larger than the order, and only tdf2 with zi.",
 [FILT, SSM], [("_ssm_lfilter", FILT), ("companion", "philtorch/mat.py"), ("fir", FILT)],
 [("registers", "delay-line contents of the direct and transposed structures", FILT)], ["return value of lti.lfilter"])

prop("C07", "Parameter-varying lfilter: the structure named by the form",
 """Parameter-varying lfilter returns exactly the output of the named structure with coefficients a[t], b[t] applied at their time step: df1 applies them to past inputs and outputs, df2 to past internal values,
 tdf1 and tdf2 update the transposed registers with the coefficients of the current step; real and complex, any orders, shared or per-row coefficients.
 Both backends (ssm, torchlpc) and all unroll factors agree wherever they support the form, and zi/zf of df2 and tdf2 are the structure's registers before and after the signal.""",
 IC, "all orders, forms, backends, ranks, N >= 1 (also N = B, N shorter than the order), coefficients that change at every step",
 "The tests check time-invariant coefficients, shapes and finiteness only; the structures differ only when coefficients vary.",
 [LPVF, LPV, "philtorch/lpv/utils.py"], [("_ssm_lfilter", LPVF), ("_torchlpc_lfilter", LPVF), ("diag_shift", "philtorch/lpv/utils.py")],
 [("registers", "delay-line contents", LPVF)], ["return value of lpv.lfilter"])

prop("C08", "FIR and all-pole building blocks, direct and transposed",
 """fir and allpole return exactly the output of the direct or transposed structure with coefficients applied at their time step (the transposed structures use the complex conjugates of their coefficients),
 for every order including zero, every N >= 1 including N shorter than the order, real and complex.
 With zi they start from the given registers (direct: past inputs or outputs, newest first; transposed: pending sums) and also return the registers after the last sample; without zi they start from rest and return the output only.""",
 IC, "all orders, lengths, structures, zi present or not, constant and varying coefficients",
 "Tests check only that fir inverts allpole in direct form for N = 64.",
 [FILT, LPVF, "philtorch/lpv/utils.py"], [("fir", FILT), ("fir, allpole", LPVF), ("diag_shift", "philtorch/lpv/utils.py")],
 [("registers", "delay line", LPVF)], ["return values of lti.fir, lpv.fir, lpv.allpole"])

prop("C09", "Chunked processing composes",
 """For every operation that accepts zi and returns a final state, cutting a signal (and time-varying coefficients) at any points, and feeding each call's final state to the next call as zi, yields
 exactly the outputs and the final state of a single call on the whole signal, however many chunks there are and however short they are.
 Calls may use different unroll factors or backends for different chunks.""",
 ("inputs", "histories", "configurations"), "all histories of calls: any sequence of chunk lengths >= 1 (shorter than the order or delay too), any operation with zi/zf, unroll factor chosen anew for every chunk",
 "No test processes a signal in more than one piece.",
 [FILT, LPVF, SSM, LPV], [("zi/zf", SSM + ":state_space"), ("zi/zf", LPV + ":state_space"), ("zi/zf", FILT), ("zi/zf", LPVF)],
 [("zf", "state handed from call to call", FILT)], ["zf and y of every call"])

prop("C10", "Block size and backend never change the result",
 """For every public function that takes unroll_factor, every value >= 1 and the default give the same result up to rounding, including final states; so do the compiled extension, the pure-Python loop
 and the package without its compiled extension.""",
 IC, "every unroll factor from 1 to beyond N, default, for all public functions; with the compiled extension and with the import of it failing",
 "Tests try one or two factors and always have the extension.",
 [SSM, LPV, REC, LPVREC, "philtorch/lti/interp.py", INIT], [("backend selection", SSM + ":extension_backend_indicator"), ("backend selection", LPV + ":extension_backend_indicator"), ("EXTENSION_LOADED", INIT)],
 [], ["return values"])

prop("C11", "Reverse-mode gradients are exact",
 """The gradient of any output of any public recursion, state-space or filter function with respect to any input (coefficients, initial state, signal) is the exact derivative,
 for every subset of inputs requiring gradients, every shape role (shared coefficients accumulate over rows and steps), real and complex (conjugate convention of PyTorch), every backend and block size.
 This includes the compiled operators called directly.""",
 IC, "all functions, shapes, subsets of differentiable inputs, cotangents, block sizes and backends",
 "gradcheck runs on a few shapes with all inputs differentiable, with tolerance.",
 [INIT, SSM, LPV, REC], [("backward", SSM + ":LTIMatrixRecurrence"), ("backward", LPV + ":MatrixRecurrence"), ("backward", REC + ":LTIRecurrence"), ("registered autograd", INIT)],
 [], ["torch.autograd.grad"])

prop("C12", "Forward-mode and second derivatives are exact",
 """Forward-mode derivatives (dual tensors) of the public recursion, state-space and filter functions equal the exact directional derivative for every subset of inputs carrying tangents,
 and gradients of gradients equal the exact second derivatives, for real and complex inputs, shared and per-row coefficients.""",
 IC, "all functions that run on the compiled or Python CPU path, shapes, subsets of inputs with tangents",
 "Forward mode and double backward are gradchecked on a handful of shapes.",
 [SSM, LPV, REC], [("jvp", SSM + ":LTIMatrixRecurrence"), ("jvp", LPV + ":MatrixRecurrence"), ("jvp", REC + ":LTIRecurrence"), ("backward is itself differentiable", SSM)],
 [], ["torch.autograd.forward_ad, torch.autograd.grad with create_graph"])

prop("C13", "Batch rows are independent",
 """Row b of every output depends on row b of the batched inputs and on the shared inputs only: a batch gives the same rows as the same calls made row by row, permuting the rows permutes the result,
 NaN or infinity in one row never reaches another, and a shared coefficient gives the same result as that coefficient repeated for every row - for outputs, final states and gradients alike.""",
 IC, "all functions, batch sizes (1 to many more than the number of threads), positions of the tainted row, mixtures of shared and per-row arguments",
 "Tests compare whole batches to a reference with finite data; taints across rows and large batch sizes are not exercised.",
 [SSM, LPV, REC, FILT, LPVF] + CS, [("row loop / omp parallel for", CS[2]), ("folding of batch and time axes", LPV + ":state_space_recursion"), ("folding of batch and delay axes", FILT + ":comb_filter")],
 [], ["return values"])

prop("C14", "Calls are pure: no input is modified, results are reproducible",
 """No public function or operator modifies any of its argument tensors, no recursion, state-space, filter function or operator returns a tensor in the memory of an argument, and none keeps state between calls: the same arguments give bitwise the same result
 whatever was called before, between or concurrently from other threads, with gradients enabled or not, and with any number of intra-op threads.""",
 ("inputs", "schedules", "histories"), "all interleavings of calls on shared argument tensors by several threads, all histories of earlier calls, grad mode on/off, thread counts",
 "Tests call each function once, in one thread, and never look at the arguments afterwards.",
 [SSM, LPV, REC, FILT, LPVF, "philtorch/poly.py", "philtorch/mat.py"] + CS, [("copies before in-place kernels", CS[2]), ("clone", "philtorch/poly.py:polydiv")],
 [("argument store", "contents of the caller's tensors", "caller")], ["arguments after the call, return values of concurrent calls"])

prop("C15", "Memory layout, views and dtype do not matter",
 """Results do not depend on how argument tensors are laid out: transposed, strided, offset, expanded (stride 0), conjugate-view and negative-view arguments give the same values as contiguous copies,
 also through gradients. Results keep the common dtype of the arguments (float32, float64, complex64, complex128; half precisions and int64 for the compiled operators that accept them) and satisfy the same law, whatever the default dtype of torch. Arguments of mixed dtypes are refused or promoted, never mistaken.""",
 IC, "all functions, every argument in every layout, every supported dtype",
 "Tests use freshly created contiguous tensors of one or two dtypes.",
 [SSM, LPV, REC, FILT, LPVF] + CS, [("contiguous()", CS[1]), ("conj_physical", INIT), ("AT_DISPATCH", CS[2])],
 [], ["return values, dtypes, gradients"])

prop("C16", "Operator contract: shapes are checked and meta kernels tell the truth",
 """For every shape combination, the compiled operators and the public recursion, state-space and filter functions either return a result of the specified shape or raise; they never read outside their arguments and never return another shape.
 The meta (fake tensor) kernels accept and reject the same arguments as the real ones and promise the size, stride and dtype actually returned, so that functions compile and trace to the same results as eager.""",
 IC, "all small shape tuples (coefficients, initial state, signal) including mismatched batch sizes, lengths, orders and ranks; contiguous and strided x",
 "One opcheck per operator with one good shape; no test passes a wrong shape.",
 [INIT, SSM, LPV, FILT, LPVF] + CS, [("register_fake", INIT), ("TORCH_CHECK", CS[2]), ("TORCH_CHECK", CS[1])],
 [], ["return value or exception of eager and FakeTensorMode calls; torch.compile"])

prop("C17", "Initial conditions: lfilter_zi and lfiltic",
 """lfilter_zi returns the registers (transposed direct form II, or direct form II when asked) for which a constant unit input gives a constant output and unchanged registers, from the first sample on.
 lfiltic returns the transposed direct form II registers left behind by the given past inputs and outputs (newest first; missing inputs are zero), so that filtering continues the past exactly.
 Both hold for all lengths of b and a and for batched coefficients.""",
 ("inputs", "histories"), "all orders of b and a, batched or not, all pasts",
 "Tests compare with scipy for a few equal orders.",
 [FILT], [("lfilter_zi", FILT), ("lfiltic", FILT)], [("zi", "TDF-II registers", FILT)], ["return values, and lfilter started from them"])

prop("C18", "Zero-phase filtering",
 """filtfilt returns the input extended at both ends by the padding mode (padlen values, by default three times the number of taps; none when the mode is None), filtered forward from the steady state of its first value,
 reversed, filtered again from the steady state of its first value, reversed and trimmed to the length of the input, for every form (df1, df2, tdf1, tdf2), with one- or two-dimensional arguments.""",
 IC, "all orders, padding modes (replicate, reflect, constant, circular, none), pad lengths, batched and unbatched coefficients",
 "Tests compare with scipy for a few filters.",
 [FILT], [("filtfilt", FILT), ("lfilter_zi", FILT)], [], ["return value of filtfilt"])

prop("C19", "Diagonalised state space equals the state space",
 """The diagonalised state space returns the same outputs and final state as the state space with A = V diag(L) V^-1, for every way of giving the decomposition (L alone when V is the identity, L with V and/or V^-1, L with A, A alone),
 every documented shape of B, C, D and zi, out_idx and unroll_factor; real systems give real results. lfilter with backend diag_ssm returns the difference equation's output for simple nonzero poles, for b of any length, in both its delayed and undelayed decomposition.""",
 IC, "systems with simple eigenvalues (eigenvector components may vanish); all roles and lengths",
 "Tests use random stable filters with tolerance and few shapes.",
 [SSM, FILT, "philtorch/mat.py", "philtorch/poly.py"], [("diag_state_space", SSM), ("_diag_ssm_lfilter", FILT), ("find_eigenvectors", "philtorch/mat.py"), ("polydiv", "philtorch/poly.py")],
 [("Vinvh", "state in the eigenbasis", SSM)], ["return values of lti.diag_state_space, lti.lfilter(backend='diag_ssm')"])

prop("C20", "Cubic spline interpolation",
 """cubic_spline by m returns (L-1)m+1 values: the cubic B-spline expansion sampled m times per input interval, that passes through the input at every m-th output, with the signal continued by reflection about its end samples (or, with scipy_padding, about half a sample beyond them),
 for any factor m >= 1, in both the parallel and the cascaded form and for any unroll_factor, up to the decay of the truncated boundary sum (signals of at least 24 samples).""",
 IC, "all m >= 1, L >= 24, both boundary conventions, both forms",
 "Tests compare a few m with scipy on random signals.",
 ["philtorch/lti/interp.py"], [("_cubic_coeff", "philtorch/lti/interp.py"), ("_cubic_spline_kernel", "philtorch/lti/interp.py")], [], ["return value of lti.cubic_spline"])

prop("C21", "Matrix and polynomial helpers compute what they name",
 """companion gives the companion matrix of z^M + a1 z^(M-1) + ... ; vandermonde its eigenvector matrix of powers; matrix_power_accumulate gives [A, ..., A^n] for every n >= 1 (inverse powers for n < 0, identity for 0);
 matrices_cumdot gives every prefix product in order; find_eigenvectors gives unit-norm columns V with A V = V diag(L); polydiv gives quotient and remainder with u = q v + r; diag_shift moves coefficient k of step t to step t+k+offset.
 All hold for any leading batch dimensions.""",
 IC, "all n (primes and composites), sizes, batch dimensions",
 "matrices_cumdot and diag_shift have no tests of their own; matrix powers are tested for a few n.",
 ["philtorch/mat.py", "philtorch/poly.py", "philtorch/lpv/utils.py", "philtorch/utils.py"], [("factorised accumulation", "philtorch/mat.py:_mat_pwr_accum_runner"), ("factorised accumulation", "philtorch/mat.py:_mat_cumdot_runner"), ("polydiv", "philtorch/poly.py")],
 [], ["return values"])

prop("C22", "Parallel Newton solver: exact prefix, and the recurrence at convergence",
 """The Newton solver started from any guess has, after i iterations, its first i values equal to the sequential recurrence y[t] = f(y[t-1], x[t]); for functions affine in the state a single iteration gives the whole solution;
 on convergence every value satisfies the recurrence within tolerance, with the given or the automatically computed Jacobian, whatever the unroll_factor.
 The reported iteration count never exceeds max_iter.""",
 ("inputs", "histories"), "all affine and polynomial recurrences, guesses, iteration limits, state sizes",
 "The one existing test cannot run with the installed PyTorch.",
 ["philtorch/prototype/nl.py", LPV], [("newton_solve", "philtorch/prototype/nl.py")], [("computed", "prefix already final", "philtorch/prototype/nl.py")], ["return value of newton_solve"])

prop("C23", "Polynomial algebra and partial fractions are exact identities",
 """On coefficient sequences with the highest power first: polymul and polysmul give the product, polyadd and polysub sum and difference (as long as the longer argument), polyder the m-th derivative,
 trim_zeros the same polynomial without leading zeros, polyval the values in the shape of the points, polydiv q and r with u = q v + r and r shorter than v, roots all roots with their multiplicities, those at zero included.
 residue gives r, p, k with b(s)/a(s) = sum_i r_i / (s - p_i)^n_i + k(s), where n_i counts the entries of the same pole up to the i-th, equal poles standing next to each other;
 residuez gives the same in 1/z with (1 - p_i/z)^n_i and k(1/z) in ascending powers. Both hold for every numerator, also longer than the denominator, leading or trailing coefficients of any sign and size, simple and repeated, real and complex poles
 (well separated, multiplicity at most three; first coefficient of a not zero, for residuez the last one neither).""",
 IC, "all lengths, zeros anywhere in front, empty results; poles at zero, repeated, complex; real and complex coefficients for the algebra",
 "No test reaches these functions at all; repeated poles, leading zeros and polynomial parts each take their own path.",
 ["philtorch/prototype/poly.py", "philtorch/prototype/signal.py"],
 [("deflation of repeated poles", "philtorch/prototype/signal.py:_compute_residues"), ("polynomial division", "philtorch/prototype/poly.py:polydiv"), ("roots", "philtorch/prototype/poly.py:roots")],
 [], ["return values of the functions of philtorch.prototype.poly, residue, residuez"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
