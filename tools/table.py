"""How each property is decided: engine binaries (symbolic execution of the real sources over
field terms, engine/) and Kani harness groups (kani/)."""
E1 = ("The real sources are compiled against a model of the field, transcript and Merkle library whose field "
      "elements are terms over F_p; every value-dependent test forks the execution.  ")
E2 = ("Kani compiles the real sources (against the same models, with field elements as 256-bit words) and CBMC "
      "decides, over bit-vectors, that no assertion or panic is reachable.  ")
E3 = ("The real sources are compiled to LLVM IR, which is executed path by path over bit-vector terms; z3 decides every branch, "
      "bound check, panic and allocation that depends on the input.  ")
KANI_CRATES = {
    "decode": dict(
        harnesses=["c17_flags", "c17_offsets", "c17_any_element"],
        functions=["cairo::decode::instruction_flags::{CairoInstructionFlags, CairoOpcode, PcUpdate, ApUpdate, ResLogic, "
                   "Op1Src, Op0Reg, DstReg}::try_from", "cairo::decode::instruction_offsets::InstructionOffsets::new"],
        bounds=["all 2^63 instruction words; no panic: all field elements"],
        assumptions=["the field library's byte conversions are those of /verif/shim/math"]),
    "work": dict(
        harnesses=["c05_counts_the_zeros", "c05_binds_its_input", "c05_smallest_nonce", "c05_smallest_nonce_later"], thorough=["c05_smallest_nonce_deep"],
        functions=["starks::grinding::hash_transcript_with_int_and_get_leading_zeros", "starks::grinding::generate_nonce_with_grinding"],
        bounds=["all challenges, nonces and digests; smallest nonce: every factor and digest, the answer being below 2; digests of at most "
                "four trailing zero bits, the answer being below 5 (thorough: 7)"],
        assumptions=["Keccak is an uninterpreted function"]),
    "challenges": dict(
        harnesses=["c09_field_challenge", "c09_field_challenge_byte_boundary", "c09_field_challenge_full_width",
                   "c09_field_challenge_below_a_byte", "c09_integer_challenge", "c09_batch", "c09_out_of_domain"],
        functions=["starks::transcript::{transcript_to_field, transcript_to_usize, batch_sample_challenges, sample_z_ood}"],
        bounds=["all 32-byte challenges; STARK field and moduli of 243, 249 and 256 bits; batches of 3; out-of-domain point: "
                "domains of two arbitrary points each, up to three draws"],
        assumptions=["the transcript emits arbitrary bytes"]),
    "options": dict(
        harnesses=["c10_conjectured", "c10_provable", "c10_small_fields", "c10_levels"],
        functions=["starks::proof::options::ProofOptions::{new_with_checked_security, new_with_checked_provable_security, new_secure}"],
        bounds=["all arguments; fields of 252, 249 and 64 bits"], assumptions=[]),
    "cells": dict(
        harnesses=["c18_flag_cells", "c18_offset_cells"],
        functions=["CairoInstructionFlags::to_trace_representation", "InstructionOffsets::to_trace_representation"],
        bounds=["all decodable words below 2^63"],
        assumptions=["the field library's byte conversions are those of /verif/shim/math"]),
}
LL = {
    **{k: KANI_CRATES[k] for k in ("decode", "work", "challenges", "options", "cells")},
    "layouts": dict(
        harnesses=["c32_names", "c32_distinct"], functions=["cairo::cairo_layout::CairoLayout::as_str"],
        bounds=["all layouts, all pairs of layouts"], assumptions=[]),
    "import": dict(
        harnesses=["c29_registers", "c29_memory", "c29_registers_back", "c29_memory_back", "c29_files", "c29_registers_deep",
                   "c29_memory_deep", "c29_memory_back_deep"],
        functions=["RegisterStates::{from_bytes_le, from_file}", "CairoMemory::{from_bytes_le, from_file, get, len}",
                   "VecWriter::{write_encoded_trace, write_encoded_memory}"],
        bounds=["all byte strings of up to 250 (trace) and 168 (memory) bytes; all traces of up to 3 states and memories of up to 6 "
                "cells, any of them missing"],
        assumptions=["hash maps are association lists", "the field library's byte conversions are those of /verif/shim/math"]),
    "inputs": dict(
        harnesses=["c28_registers", "c28_program", "c28_output", "c28_program_deep"],
        functions=["cairo::air::PublicInputs::from_regs_and_mem"],
        bounds=["all registers of runs of 1..4 steps; programs of 0..8 cells with any contents; outputs of 0..3 cells anywhere, also "
                "overlapping the program; with and without a range-check segment"],
        assumptions=["hash maps are association lists", "memory has the cells of the program and of the output"]),
    "runs": dict(
        harnesses=["c30_version_0", "c30_version_1", "c30_segments", "c30_sizes", "c30_failures", "c30_arguments_0", "c30_arguments_1"],
        thorough=["c30_segments_deep"],
        functions=["cairo::runner::run::{run_program, generate_prover_args}", "VecWriter", "RegisterStates::from_bytes_le",
                   "CairoMemory::from_bytes_le"],
        bounds=["all contents of traces of up to 3 states, memories of up to 5 cells, up to 3 segments (thorough: 4) of any known or unknown "
                "size below 2^32, range-check segment anywhere among them, with and without a stop offset; all layouts; "
                "segment map: outputs of 0..2 cells and range-check segments of 0..2 cells"],
        assumptions=["the virtual machine reports what /verif/shim/cairo-vm lets the harness choose", "serde_json reads any program"]),
    "cells_of_trace": dict(
        harnesses=["c34_chunks", "c34_displacements_pointer", "c34_displacements_pc", "c34_displacements_fp", "c34_displacements_ap"],
        functions=["cairo::execution_trace::build_cairo_execution_trace"],
        bounds=["0..3 range-checked values, each any value below 2^128; all three displacements of every instruction with every "
                "base register, all 64-bit registers, memory values below 2^64"],
        assumptions=["hash maps are association lists"]),
    "filling": dict(
        harnesses=["c27_memory", "c27_memory_after_offsets", "c27_memory_jump", "c27_output_1", "c27_output_2", "c27_output_4",
                   "c27_output_after_offsets", "c27_builtin", "c27_offsets_1", "c27_offsets_2", "c27_offsets_far"],
        thorough=["c27_memory_deep", "c27_output_deep", "c27_offsets_deep"],
        functions=["cairo::execution_trace::{build_main_trace, build_cairo_execution_trace}", "PublicInputs::from_regs_and_mem"],
        bounds=["runs of 1..3 steps whose ap and fp are any addresses up to 12 (thorough: 16), programs of 1..3 cells, outputs of 1, 2 "
                "and 4 cells anywhere among or right after the accessed cells, range-check segments of 0..2 cells; up to four "
                "displacements per run, each any value within 4 of 0x8000, others up to 20 away; all memory values"],
        assumptions=["hash maps are association lists", "output cells lie among or right after the accessed addresses"]),
    "tables": dict(
        harnesses=["c16_cells", "c16_cells_odd", "c16_frame", "c16_frame_many", "c16_frame_long", "c16_frame_written"],
        functions=["starks::trace::TraceTable::{new, new_from_cols, get, get_row, last_row, get_cols}",
                   "starks::frame::Frame::{read_from_trace, get_row, get_row_mut}"],
        bounds=["any cell of tables of 4 by 3 and 3 by 4 and any pair of columns; frames of 1 and 2 rows read from tables of 8 and 4 rows "
                "at any step and offsets below 2^40 with any blowup factor (0..255), and from a table of 1024 rows around its ends at offsets 0..3 with any power of two"],
        assumptions=[]),
    "roundtrip": dict(
        harnesses=["c11_path", "c11_frame", "c11_decommitment", "c11_openings", "c11_proof_lists", "c11_proof_parts", "c11_public"],
        functions=["Serializable::serialize and Deserializable::deserialize of StarkProof, FriDecommitment, DeepPolynomialOpenings, "
                   "Frame and PublicInputs", "starks::utils::{serialize_proof, deserialize_proof}"],
        bounds=["all contents; lists of 0..2 elements (paths 0..4 digests, frames up to 3x3, public memory up to 3 cells, every "
                "presence of segments and range-check bounds)"],
        assumptions=["hash maps are association lists", "the field library's byte conversions are those of /verif/shim/math"]),
    "bytes": dict(
        harnesses=["c12_path", "c12_frame", "c12_decommitment", "c12_openings", "c12_public", "c12_proof", "c12_decommitment_window",
                   "c12_openings_window", "c12_public_window", "c12_proof_window_a", "c12_proof_window_b", "c12_proof_window_c",
                   "c12_proof_window_d", "c12_proof_truncated"],
        thorough=["c12_frame_deep", "c12_decommitment_deep", "c12_openings_deep", "c12_public_deep", "c12_proof_deep",
                  "c12_proof_wide_a", "c12_proof_wide_b", "c12_proof_wide_c", "c12_proof_wide_d"],
        functions=["Deserializable::deserialize of StarkProof, FriDecommitment, DeepPolynomialOpenings, Frame and PublicInputs",
                   "starks::utils::deserialize_proof"],
        bounds=["all byte strings of up to 168 (path), 160 (frame), 112 (decommitment), 150 (openings), 240 (public inputs) and 132 "
                "(proof) bytes; encodings of small values of each type with an arbitrary window of 16 (proof: 12) bytes at every "
                "multiple of 8; every beginning of the encoding of a proof"],
        assumptions=["hash maps are association lists", "a request for more than 4 GiB of memory is a failure"]),
}
TABLE = {
    "C01": dict(engine=["c01"], explain=E1 + "verify() runs on a proof whose every field element, public input and "
                "challenge is a symbol; z3 decides that no accepting path is compatible with a failing OOD equation."),
    "C02": dict(engine=["c02"], explain=E1 + "verify() runs on a symbolic proof; z3 decides that every accepting path "
                "implies each folding equation and each FRI opening."),
    "C03": dict(engine=["c03"], explain=E1 + "verify() runs on a symbolic proof; z3 decides that every accepting path "
                "implies the DEEP equation of every query."),
    "C04": dict(engine=["c04"], explain=E1 + "verify() runs on a symbolic proof, Merkle openings being uninterpreted "
                "predicates; z3 decides that every accepting path implies every trace and composition opening."),
    "C05": dict(either=["ll", "work"], engine=["c05"], explain=E3 + "The counting function is decided against an independent reading of the digest "
                "(Keccak uninterpreted), its hashed bytes are injective in challenge and nonce, the grinding loop returns the smallest "
                "nonce.  " + E1 + "verify() and prove() run with every number of zero bits and every factor."),
    "C06": dict(engine=["c06"], explain=E1 + "verify() runs on every listed deviation from the prescribed shape (and "
                "pairs of them) with symbolic contents; no path may accept or panic."),
    "C07": dict(engine=["c07"], explain=E1 + "prove() and verify() run on satisfying traces of symbolic inputs, with "
                "challenges hashed from the symbolic transcript: no path may reject or panic. Conversely every symbolic proof "
                "satisfying all the equations and openings is accepted."),
    "C08": dict(engine=["c08"], explain=E1 + "the transcript of verify() on a fully symbolic proof is recorded; for every challenge "
                "and every earlier message the solver shows that two proofs with equal transcripts up to that challenge agree on "
                "the message. The transcripts of prove() and verify() on symbolic traces are shown equal, message by message."),
    "C09": dict(either=["ll", "challenges"], engine=["c09"], explain=E3 + "The conversions of transcript bytes run on arbitrary bytes against an "
                "independent reading of them; the out-of-domain point is the first of several arbitrary draws outside arbitrary domains.  "
                + E1 + "verify() and prove() are run with first draws inside the domains: they draw again and then do the same as without."),
    "C10": dict(either=["kani", "options"], explain=E2 + "The constructors run on arbitrary arguments; acceptance must agree with the formula "
                "evaluated in wide integers."),
    "C11": dict(ll=["roundtrip"], explain=E3 + "Values of every type with arbitrary contents are serialized and read back; every part "
                "must be equal to the original."),
    "C12": dict(ll=["bytes"], explain=E3 + "The decoders run on arbitrary byte strings; no path may panic, read outside the string, "
                "overflow, request memory without bound or go on forever."),
    "C13": dict(engine=["c13"], features=["parallel"], explain=E1 + "prove() runs on traces of symbols; every opened trace cell equals the value of the "
                "independently interpolated column at its point of the shifted domain and opens the committed root; "
                "interpolation and low-degree extension are also compared alone, with symbolic values and coefficients."),
    "C14": dict(engine=["c14"], features=["parallel"], explain=E1 + "the evaluator runs on an extended trace, coefficients, challenge and public inputs "
                "that are all symbols; each value must equal, as a rational function, the sum of the declared quotients. The "
                "committed composition polynomial is compared the same way through prove()."),
    "C15": dict(engine=["c15"], explain=E1 + "the FRI commit and query phases run on polynomials whose coefficients and folding "
                "challenges are symbols, and inside prove(); every committed layer, opened evaluation and the final value must "
                "equal the independently computed fold, and every path must open its layer's root."),
    "C16": dict(ll=["tables"], engine=["c16"], explain=E1 + "tables and frames of distinct symbols are built and read back through every method; "
                "each cell read must be, as a term, the cell put there. Out-of-domain frames are compared with the independently "
                "evaluated columns, also inside prove().  " + E3 + "Cells are read at arbitrary positions, frames at arbitrary steps, offsets and blowup factors."),
    "C31": dict(engine=["c31"], explain=E1 + "validate_trace runs on traces of symbols; on every path its answer must be true exactly "
                "when all boundary and non-exempted transition terms are zero; an F_p solver decides which paths are feasible."),
    "C33": dict(engine=["c33"], explain=E1 + "the constraints of each example AIR on a trace of symbols are shown equivalent to an "
                "independent closed-form description of its sequence, both ways, and each generator's symbolic trace is shown to satisfy both."),
    "C17": dict(either=["ll", "decode"], explain=E3 + "The decoder runs on an arbitrary word; every field must be the one an independent "
                "reading of the bits selects and a word is refused exactly when a group is undefined."),
    "C18": dict(either=["ll", "cells"], explain=E3 + "The trace cells of an arbitrary decodable word are bits and 16-bit values that weigh up to it."),
    "C19": dict(engine=["c19"], explain=E1 + "compute_transition runs on two rows of symbols. If all constraints are zero, each flag cell "
                "and the instruction cell must obey the decoding rules; if they obey them, the constraints must be zero; an F_p solver "
                "decides every path. Exemptions and declared degrees are compared with the constraints as polynomials."),
    "C20": dict(engine=["c20"], explain=E1 + "For every legal flag combination compute_transition runs on two rows of symbols; its "
                "constraints vanish exactly when operand addresses and next registers are those of an independent description of the machine."),
    "C21": dict(engine=["c21"], explain=E1 + "For every legal flag combination compute_transition runs on two rows of symbols; its "
                "constraints vanish exactly when result, product, jump helpers and opcode effects are those of an independent description."),
    "C22": dict(engine=["c22"], explain=E1 + "The memory constraints on two rows of symbols vanish exactly when addresses are continuous, "
                "values single and products chained; on whole small traces they and the boundary conditions must force the total product."),
    "C23": dict(engine=["c23"], explain=E1 + "The range-check constraints on two rows of symbols vanish exactly when offsets are gap-free, "
                "products chained and chunks packed; on whole small traces they and the boundary conditions must force the total product."),
    "C24": dict(engine=["c24"], explain=E1 + "boundary_constraints runs on symbolic public inputs and challenges for many run shapes; the "
                "conditions must be, as terms, exactly the expected ones."),
}
TABLE.update({
    "C25": dict(engine=["c25"], explain=E1 + "For every legal flag combination a reference machine makes up valid runs whose memory is "
                "symbolic; the rows build_cairo_execution_trace gives for them must satisfy an independent description of the machine and the "
                "constraints of the AIR, as terms."),
    "C26": dict(engine=["c26"], explain=E1 + "build_main_trace and build_auxiliary_trace run on made-up valid runs with symbolic memory or "
                "symbolic challenges; every constraint on every row and every boundary condition of the real AIR and of an independent "
                "description must hold as rational functions."),
    "C27": dict(ll=["filling"], explain=E3 + "The main trace of runs with arbitrary registers, displacements, memory values and segments "
                "must leave no gap in addresses or offsets, no address with two values and the rows of the run as they were."),
    "C28": dict(ll=["inputs"], explain=E3 + "The public inputs of arbitrary registers, programs and outputs must be the first and "
                "last registers, the number of steps and exactly the cells of program and output."),
    "C29": dict(ll=["import"], explain=E3 + "The importers run on arbitrary byte strings and must read what an independent reading "
                "finds or refuse the length; what the exporter writes for arbitrary traces and memories must be read back."),
    "C30": dict(ll=["runs"], explain=E3 + "Programs are run on a machine that reports arbitrary traces, memories and segments; what "
                "run_program returns must be that, and the machine must have been asked for what the caller asked for."),
    "C32": dict(ll=["layouts"], explain=E3 + "The name of an arbitrary layout must be its canonical one; the names of two arbitrary "
                "layouts are equal only if the layouts are."),
    "C34": dict(ll=["cells_of_trace"], explain=E3 + "The trace of arbitrary range-checked values and of instructions with arbitrary "
                "displacements must hold the chunks and addresses that an independent reading of the bits gives."),
})
# what the bounds leave out, for the evidence
OUTSIDE = {
    "engine": "trace lengths, blowup factors, query positions and AIRs other than the listed ones (for each listed one every value of the "
              "symbols is covered); the field, polynomial, FFT, Merkle and transcript code of the dependencies, which is modelled",
    "ll": "longer inputs than the stated ones; allocation failures below 4 GiB; the hash maps, hash functions and field arithmetic, which are modelled",
    "all": "the metal and giza features",
}
NOT_APPLICABLE = {}
