import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
V="src/starks/verifier.rs"; PR="src/starks/prover.rs"
p("C01","Accepted proofs satisfy the out-of-domain composition equation",
"The verifier accepts a proof only if the claimed out-of-domain value of the composition polynomial (its even part plus z times its odd part) equals the value recomputed from the claimed out-of-domain trace frame: the sum of every boundary quotient and every transition quotient, each with its own random coefficients, degree adjustment and exemption factor. The check uses every boundary and every transition constraint the AIR declares.",
["inputs"],"every value of the claimed openings and of the public inputs, for any AIR with auxiliary columns, several exemptions and several boundary constraints",
"The integration tests only feed honest proofs (plus a couple of mutated ones) of four tiny AIRs; a dropped or mis-weighted term is invisible to them unless the honest term is non-zero there, and no forged proof is tried.",
[V,"src/starks/traits.rs"],[("recomputes H(z) from the OOD frame and compares","src/starks/verifier.rs step_2_verify_claimed_composition_polynomial"),("exemption polynomials","src/starks/traits.rs transition_exemptions_verifier")],["return value of verify"])
p("C02","Accepted proofs fold consistently through every FRI layer",
"For every query of an accepted proof, in every FRI layer both the evaluation at the queried point and the one at its symmetric point open to that layer's committed root at the right leaf positions, the next layer's evaluation is the even/odd fold of the two with that layer's challenge, and the fold of the last layer equals the claimed final constant.",
["inputs"],"every value of the layer evaluations, final value and query positions",
"Existing tests never present a proof whose FRI openings are inconsistent; soundness of each conjunct needs all values, not honest ones.",
[V],[("per-query fold check","src/starks/verifier.rs verify_query_and_sym_openings"),("all queries are conjoined","src/starks/verifier.rs step_3_verify_fri")],["return value of verify"])
p("C03","Accepted proofs satisfy the DEEP equation at every query",
"For every query of an accepted proof the first FRI layer's evaluation equals the DEEP combination of that query's opened trace columns and composition-polynomial halves with the out-of-domain values: each column and each frame offset contributes its own quotient with its own random coefficient.",
["inputs"],"every opened value and every claimed out-of-domain value, any number of columns, frame rows and queries",
"Tests use honest proofs, for which a dropped quotient is dropped by prover and verifier alike and still verifies.",
[V,PR],[("DEEP reconstruction","src/starks/verifier.rs reconstruct_deep_composition_poly_evaluation"),("comparison for each query","src/starks/verifier.rs step_4_verify_deep_composition_polynomial")],["return value of verify"])
p("C04","Accepted proofs open the trace and composition commitments at every query",
"For every query of an accepted proof, the opened main-trace row, auxiliary-trace row and composition-polynomial pair all verify against their committed Merkle roots at the queried position. A proof with a single opening that does not verify is rejected.",
["inputs"],"every opened value, root and path; every query position",
"No test presents a proof with a wrong Merkle path; honest proofs verify whether or not the result of the opening is used.",
[V],[("composition and trace openings","src/starks/verifier.rs step_4_verify_deep_composition_polynomial")],["return value of verify"])
p("C05","Proof of work is enforced and always produced",
"The verifier accepts a nonce only if hashing the transcript challenge with it yields at least the required number of zero bits, and the prover's grinding returns the smallest nonce with that property. The bit count and the bytes hashed are the same function of challenge and nonce for prover and verifier, and depend on all 32 challenge bytes and all 8 nonce bytes.",
["inputs"],"every transcript challenge, nonce, digest and grinding factor",
"One test checks one challenge, one factor and one nonce.",
["src/starks/grinding.rs",V,PR],[("hash and count","src/starks/grinding.rs hash_transcript_with_int_and_get_leading_zeros"),("search","src/starks/grinding.rs generate_nonce_with_grinding"),("rejection","src/starks/verifier.rs verify")],["return values"])
p("C06","Malformed proofs are rejected, not accepted and not a crash",
"A proof whose shape does not match what the AIR and options prescribe (fewer or more queries, openings, FRI layers, Merkle roots, opened columns or frame rows, or an impossible trace length) makes the verifier return false. It is never accepted and never makes the verifier panic.",
["inputs"],"every combination of vector lengths around the prescribed ones, and every field value inside",
"Tests never verify a structurally wrong proof; zip-truncation and indexing depend on lengths no honest proof has.",
[V,"src/starks/proof/stark.rs","src/starks/frame.rs"],[("query count check","src/starks/verifier.rs verify")],["return value of verify"])
p("C07","Honest proofs of satisfying traces are always accepted",
"For every trace that satisfies the AIR's boundary and transition constraints, and for every supported blowup factor, query count and coset offset, the prover's proof is accepted by the verifier under the same public inputs and options.",
["inputs","configurations"],"every satisfying trace and public input of the AIR, all challenge values derived from them",
"Integration tests prove one trace per AIR with one or two option sets.",
[PR,V,"src/starks/fri/mod.rs","src/starks/constraints/evaluator.rs"],[("prover rounds 1-4","src/starks/prover.rs prove"),("verifier","src/starks/verifier.rs verify")],["verify(prove(..))"])
p("C08","Fiat-Shamir challenges bind every earlier prover message",
"Every challenge is derived from a transcript that has absorbed, in order, every commitment and every claimed value the prover has sent before it: trace roots before the AIR challenges and constraint coefficients, the composition root before z, all out-of-domain values before the DEEP coefficients, each FRI root before its folding challenge, the final value before the proof-of-work challenge and the nonce before the query positions. Prover and verifier derive identical challenges.",
["inputs"],"every prover message: changing any message changes the transcript state every later challenge is computed from",
"Honest runs verify even if prover and verifier both forget to absorb a message, so no existing test can notice it.",
[V,PR,"src/starks/fri/mod.rs"],[("verifier transcript replay","src/starks/verifier.rs step_1_replay_rounds_and_recover_challenges"),("prover transcript","src/starks/prover.rs prove"),("FRI transcript","src/starks/fri/mod.rs fri_commit_phase")],["bytes absorbed and challenges drawn"])
p("C09","Challenges are uniform in range and avoid the evaluation domains",
"A field challenge keeps exactly the low (field bits - 1) bits of the 32 transcript bytes, so every such value is reachable by equally many transcripts and none exceeds the modulus; an integer challenge is the first 8 bytes read big-endian; the out-of-domain point is the first challenge that lies in neither the evaluation domain nor the trace domain.",
["inputs"],"every 32-byte transcript output and every field modulus size up to 256 bits",
"Tests check a handful of byte strings for four moduli.",
["src/starks/transcript.rs"],[("bit masking","src/starks/transcript.rs randomness_to_field"),("rejection sampling","src/starks/transcript.rs sample_z_ood")],["returned field elements and integers"])
p("C10","Proof options are accepted exactly when they reach the security level",
"The checked constructors return options if and only if the field has more bits than the target plus 40 and the security formula reaches the target: for a power-of-two blowup factor of b bits, conjectured security b times queries plus grinding minus one must exceed the target, provable security (b times queries, halved) plus grinding must be at least the target. They never panic or wrap, whatever the arguments, accepted options carry the arguments unchanged, and every predefined level reaches the bits in its name.",
["inputs","configurations"],"every blowup factor, query count, grinding factor and security target",
"Tests try a few parameter sets, all inside the region where mistakes cancel.",
["src/starks/proof/options.rs"],[("conjecturable check","src/starks/proof/options.rs new_with_checked_security"),("provable check","src/starks/proof/options.rs new_with_checked_provable_security"),("presets","src/starks/proof/options.rs new_secure")],["Result of the constructors"])
p("C11","Serialization of proofs and their parts is lossless",
"Deserializing the bytes of any proof, FRI decommitment, DEEP opening, frame or Merkle path yields a value equal to the original, field by field; the same holds for the public inputs of a Cairo run.",
["inputs"],"every field value and every combination of vector lengths (bounded)",
"Property tests sample random values for some types with equal-length vectors only; public inputs and unequal lengths are not covered.",
["src/starks/proof/stark.rs","src/starks/fri/fri_decommit.rs","src/starks/frame.rs","src/starks/utils.rs","src/cairo/air.rs"],[("encoders and decoders","src/starks/proof/stark.rs serialize/deserialize"),("","src/cairo/air.rs PublicInputs serialize/deserialize")],["serialize, deserialize"])
p("C12","Deserializing arbitrary bytes never panics",
"Decoding any byte string as a proof, FRI decommitment, DEEP opening, frame, Merkle path or public inputs returns a value or an error; it does not panic, read out of bounds, overflow or loop without consuming input.",
["inputs"],"every byte string up to the stated length",
"Two tests mutate or slice one stored proof; a fuzz target exists for the proof only and samples.",
["src/starks/proof/stark.rs","src/starks/fri/fri_decommit.rs","src/starks/frame.rs","src/starks/utils.rs","src/cairo/air.rs"],[("length-prefixed parsing","src/starks/proof/stark.rs StarkProof::deserialize"),("","src/cairo/air.rs PublicInputs::deserialize")],["deserialize"])
p("C13","The prover commits to the low-degree extension of the trace",
"Each committed column is the evaluation, over the shifted domain of size trace length times blowup, of the unique polynomial of degree below the trace length that agrees with the trace on the trace domain; interpolating and re-evaluating on the trace domain returns the trace. The trace, evaluation and verifier domains use consistent roots of unity and the option's coset offset.",
["inputs","configurations"],"every trace value; trace lengths, blowups and offsets within the bound",
"Tests check single polynomials and fixed sizes.",
["src/starks/domain.rs",PR,"src/starks/trace.rs"],[("domains","src/starks/domain.rs Domain::new"),("extension","src/starks/prover.rs evaluate_polynomial_on_lde_domain"),("interpolation","src/starks/trace.rs compute_trace_polys")],["evaluate_polynomial_on_lde_domain, compute_trace_polys"])
p("C14","The composition evaluator computes exactly the declared quotients",
"For every trace (valid or not) the constraint evaluator's value at each point of the evaluation domain equals the sum over boundary and transition constraints of the constraint value divided by its zerofier (excluding exactly the exempted rows), weighted by the constraint's two coefficients and its degree adjustment.",
["inputs"],"every trace value, every challenge and coefficient",
"End-to-end tests only see valid traces, where wrong zerofiers or swapped coefficients can cancel between prover and verifier.",
["src/starks/constraints/evaluator.rs","src/starks/constraints/boundary.rs","src/starks/traits.rs"],[("evaluator","src/starks/constraints/evaluator.rs evaluate"),("zerofiers","src/starks/constraints/boundary.rs compute_zerofier"),("exemptions","src/starks/traits.rs transition_exemptions")],["ConstraintEvaluator::evaluate"])
p("C15","FRI commits to correct folds and queries correct positions",
"Each FRI layer the prover commits to is the evaluation, on the squared domain, of the even part plus challenge times odd part of the previous polynomial; the final value is the constant the last fold leaves. Query openings return, for each layer, the evaluations at the query position and at its symmetric position with paths that verify against that layer's root.",
["inputs"],"every polynomial of bounded degree, every challenge and every query index",
"One test folds one polynomial with constants.",
["src/starks/fri/mod.rs","src/starks/fri/fri_functions.rs","src/starks/fri/fri_commitment.rs"],[("commit","src/starks/fri/mod.rs fri_commit_phase"),("fold","src/starks/fri/fri_functions.rs fold_polynomial"),("query","src/starks/fri/mod.rs fri_query_phase")],["FriLayer values, FriDecommitment"])
p("C16","Trace tables and frames address rows and columns consistently",
"Building a table from columns and reading it back by row, column, single cell, sub-table, concatenation or frame offset always returns the cell that was put there, and out-of-domain frames contain each column's polynomial evaluated at z times the trace generator to each offset.",
["inputs"],"every cell value and every table shape within the bound",
"Tests read a few cells of one small table.",
["src/starks/trace.rs","src/starks/frame.rs"],[("row-major indexing","src/starks/trace.rs TraceTable"),("frame","src/starks/frame.rs Frame")],["TraceTable, Frame accessors"])
p("C17","Instruction words decode to the flags and offsets the bits encode",
"Every 63-bit instruction word decodes to the register, source, logic, update and opcode selected by its flag bits and to the three offsets as signed displacements; words whose flag groups have an undefined encoding are refused with an error. Decoding never panics.",
["inputs"],"every 64-bit instruction word",
"Tests decode a handful of words.",
["src/cairo/decode/instruction_flags.rs","src/cairo/decode/instruction_offsets.rs"],[("flag decoding","src/cairo/decode/instruction_flags.rs TryFrom<&FE>"),("offset decoding","src/cairo/decode/instruction_offsets.rs InstructionOffsets::new")],["decoded values"])
p("C18","The trace representation of an instruction re-assembles its word",
"For every decodable instruction word, the sixteen flag cells are bits and, together with the three unbiased 16-bit offset cells, weigh up to exactly the instruction word; the last flag cell is zero.",
["inputs"],"every decodable 63-bit instruction word",
"Tests compare a few representations cell by cell.",
["src/cairo/decode/instruction_flags.rs","src/cairo/decode/instruction_offsets.rs"],[("flag cells","src/cairo/decode/instruction_flags.rs to_trace_representation"),("offset cells","src/cairo/decode/instruction_offsets.rs to_trace_representation")],["to_trace_representation"])
p("C19","Cairo AIR: instruction cells are forced to decode the instruction word",
"A trace row whose selector is 1 satisfies the instruction constraints if and only if the fifteen flag cells are 0 or 1, the sixteenth is 0, and the instruction cell equals the flags and offsets packed in the documented positions. The constraints on the flag cells hold on every row, whatever its selector, and no row is exempted.",
["inputs"],"every value of a trace row and of the next row",
"A test evaluates the constraints on one honest trace; it never shows a dishonest row is refused.",
["src/cairo/air.rs"],[("compute_instr_constraints","src/cairo/air.rs"),("transition degrees and exemptions","src/cairo/air.rs CairoAIR::new")],["compute_transition"])
p("C20","Cairo AIR: operand addresses and registers follow the instruction",
"For a row whose selector is 1 and whose flag cells encode a valid instruction, the operand and register constraints vanish if and only if the three operand addresses are the ones selected by the flags (ap/fp/pc/op0 plus unbiased offset) and the next ap, fp and pc are the ones Cairo semantics prescribe, including conditional and relative jumps, calls and returns.",
["inputs"],"every valid flag combination and every field value of the other cells",
"No test evaluates these constraints on a wrong successor state.",
["src/cairo/air.rs"],[("compute_operand_constraints","src/cairo/air.rs"),("compute_register_constraints","src/cairo/air.rs")],["compute_transition"])
p("C21","Cairo AIR: result and opcode semantics are enforced",
"For a row whose selector is 1 and whose flag cells encode a valid instruction, the opcode constraints vanish if and only if the result cell is op1, op0+op1 or op0*op1 as selected (the jump helper cells included), a call stores fp and the return address at its operands and an assert-equal equates destination and result.",
["inputs"],"every valid flag combination and every field value of the other cells",
"No test evaluates these constraints on a wrong result.",
["src/cairo/air.rs"],[("compute_opcode_constraints","src/cairo/air.rs")],["compute_transition"])
p("C22","Cairo AIR: memory is continuous, single-valued and a permutation",
"The memory constraints vanish if and only if in the address-sorted columns each address equals the previous one or exceeds it by one, equal addresses have equal values, and each permutation cell is the previous one times (z - unsorted pair) over (z - sorted pair), across the cells of a row and from one row to the next. The boundary conditions force the total product to be the one the public memory demands.",
["inputs"],"every value of two consecutive rows and every challenge",
"Unit tests check the boundary product for one example.",
["src/cairo/air.rs"],[("memory_is_increasing, permutation_argument","src/cairo/air.rs"),("get_memory boundary product","src/cairo/air.rs boundary_constraints")],["compute_transition, boundary_constraints"])
p("C23","Cairo AIR: range-checked cells are a permutation of a gap-free 16-bit range",
"The range-check constraints vanish if and only if consecutive sorted offset cells differ by 0 or 1 and the permutation cells chain (z - unsorted) over (z - sorted); the boundary conditions fix the smallest and largest value and a total product of one. When the range-check builtin is used its cell equals the 8 chunk cells packed in base 2^16.",
["inputs"],"every value of two consecutive rows and every challenge",
"Tests check the permutation column builder on one example only.",
["src/cairo/air.rs"],[("permutation_argument_range_check, range_check_builtin","src/cairo/air.rs")],["compute_transition, boundary_constraints"])
p("C24","Cairo boundary constraints pin the public run",
"The boundary constraints fix initial pc, initial ap, initial fp, final pc, final ap, the range-check bounds and the two permutation totals to exactly the values in the public inputs, at the first or last real step of the run or the first or last row of the trace, and fix nothing else.",
["inputs"],"every public input and every trace length",
"Tests never vary the public inputs against a fixed trace.",
["src/cairo/air.rs"],[("boundary_constraints","src/cairo/air.rs")],["boundary_constraints"])
p("C25","The Cairo prover's main trace satisfies the AIR for every valid run",
"For every execution that obeys Cairo semantics, the main trace built from its register states and memory has, in every step row, cells that satisfy all instruction, operand, register and opcode constraints between consecutive steps, whatever field values memory holds.",
["inputs","programs"],"every valid instruction class with arbitrary field values in memory",
"Tests build the trace of two fixed programs.",
["src/cairo/execution_trace.rs"],[("build_cairo_execution_trace","src/cairo/execution_trace.rs"),("compute_res, compute_op0, compute_op1, compute_dst, update_values","src/cairo/execution_trace.rs")],["build_cairo_execution_trace, compute_transition"])
p("C26","Auxiliary columns complete every padded Cairo trace",
"For every main trace after hole filling and padding, the auxiliary columns built from it (sorted memory, sorted offsets, permutation products) satisfy every memory and range-check constraint on every row and reach the boundary totals.",
["inputs"],"every memory value and every challenge; sizes within the bound",
"One test builds the columns for one example.",
["src/cairo/air.rs"],[("build_auxiliary_trace","src/cairo/air.rs"),("add_pub_memory_in_public_input_section, sort_columns_by_memory_address, generate_memory_permutation_argument_column, generate_range_check_permutation_argument_column","src/cairo/air.rs")],["build_auxiliary_trace"])
p("C27","Memory and range-check holes are filled so sorted columns have no gap",
"After the main trace is built, the accessed addresses together with the public memory form a contiguous interval in which every address has one value, with enough (0, 0) accesses at the end for the public memory; the published range-check bounds are the smallest and largest offset of the run and every value between them occurs; the rows of the run are unchanged, added rows are switched off and make the number of rows a power of two. This holds wherever the output and range-check segments lie.",
["inputs"],"every set of accessed addresses and offsets within the bound",
"Tests cover two or three hand-picked gap patterns.",
["src/cairo/execution_trace.rs"],[("get_memory_holes, fill_memory_holes","src/cairo/execution_trace.rs"),("get_rc_holes, fill_rc_holes","src/cairo/execution_trace.rs"),("pad_with_last_row / add_pub_memory_dummy_accesses","src/cairo/execution_trace.rs")],["build_main_trace"])
p("C28","Public inputs describe exactly the run",
"The public inputs computed from register states and memory hold the first and last pc and ap, the first fp, the number of steps and, as public memory, exactly the program cells at addresses 1..n plus the output segment when there is one.",
["inputs"],"every register-state list and memory within the bound",
"Only indirectly exercised by end-to-end tests.",
["src/cairo/air.rs"],[("PublicInputs::from_regs_and_mem","src/cairo/air.rs")],["PublicInputs"])
p("C29","Traces and memories survive the binary import and export formats",
"Importing the little-endian trace and memory encodings written by the exporter gives back the same registers and memory cells; any byte string whose length is not a whole number of records is refused, and no byte string makes the importer panic.",
["inputs"],"every register and memory value, every byte string within the bound",
"Tests import two stored files.",
["src/cairo/register_states.rs","src/cairo/cairo_mem.rs","src/cairo/runner/vec_writer.rs"],[("from_bytes_le","src/cairo/register_states.rs, src/cairo/cairo_mem.rs"),("write_encoded_trace, write_encoded_memory","src/cairo/runner/vec_writer.rs")],["from_bytes_le, VecWriter"])
p("C30","Program runs are handed to the prover unchanged",
"Running a program reports the machine's trace, memory and program length unchanged, requests the layout, entrypoint, tracing and relocation the caller asked for, and locates the range-check segment at one plus the total size of the preceding segments; the segment map holds exactly the ranges supplied.",
["inputs"],"every segment layout and every machine outcome within the bound",
"Tests run two programs that have no preceding builtin segments.",
["src/cairo/runner/run.rs"],[("run_program","src/cairo/runner/run.rs"),("create_memory_segment_map","src/cairo/runner/run.rs")],["run_program, generate_prover_args"])
p("C31","The debug trace validator accepts exactly the satisfying traces",
"Trace validation returns true if and only if every boundary constraint holds at its step and every transition constraint vanishes on every row that is not exempted.",
["inputs"],"every trace and public input value",
"Only called on valid traces.",
["src/starks/debug.rs"],[("validate_trace","src/starks/debug.rs")],["validate_trace"])
p("C32","Layout names match the ones the Cairo runner knows",
"Each layout maps to its own distinct canonical name.",
["configurations"],"every layout","No test covers it.",
["src/cairo/cairo_layout.rs"],[("as_str","src/cairo/cairo_layout.rs")],["CairoLayout::as_str"])
p("C33","Example AIRs hold exactly on the sequences they describe",
"Each example AIR's constraints vanish on a trace if and only if the trace is the sequence it describes (Fibonacci, two-column Fibonacci, squares, Fibonacci with a permutation, dummy), and its trace generator produces such a trace for every initial value.",
["inputs"],"every initial value and every trace value within the bound",
"Each test proves one trace with fixed initial values.",
["src/starks/example/simple_fibonacci.rs","src/starks/example/fibonacci_2_columns.rs","src/starks/example/quadratic_air.rs","src/starks/example/fibonacci_rap.rs","src/starks/example/dummy_air.rs"],[("compute_transition, boundary_constraints, trace generators","src/starks/example/*.rs")],["AIR trait methods, generators"])
p("C34","Fixed-width helper encodings in the Cairo trace are exact",
"The 128-bit range-check values are split into eight 16-bit chunks whose weighted sum is the value, and register displacements are added to addresses with sign.",
["inputs"],"every 128-bit value, every register and offset",
"Tests decompose two values.",
["src/cairo/execution_trace.rs"],[("decompose_rc_values_into_trace_columns","src/cairo/execution_trace.rs")],["trace columns"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S)
print(len(P))
