NA = {
 'N01': 'compute cost depends on SBF code generation, syscall prices and the arbitrary consumer callback; no static cost bound in reach covers the callee, and running it would be a test',
 'N02': 'liveness over an unbounded schedule of network failures, forks and slot progress: no finite program-point condition of this code implies it (the safety parts are O01-O03 and O08)',
 'N03': 'a collision needs equal SHA-256 inputs (same seed, slot, program, discriminator and queue count after a removal in between); whether a caller produces that is a runtime history, and excluding it would need the hash input to contain a unique value, which the protocol does not have',
}
PROG = ('path-sensitive dataflow (trace partitioning, value numbering) over the monomorphised MIR of process_instruction',
        'All source paths of the instruction are summarised by an abstract interpreter over type-checked MIR; the required guard/effect relation is decided on every succeeding path summary. Trusted: rustc front end, models of the Solana runtime (CPI, PDA, sysvars), bytemuck/borsh layout, and the queue operation summaries decided by Q01-Q05. Two account-list entries naming the same account are treated as distinct.')
QUEUE = ('dataflow over the MIR of every QueueAccount method with loop summaries (inductive loop variables, interval and region analysis)',
         'Each method is analysed over an arbitrary account region (Q04, Q05) and over a region with 16 <= cursor <= length (functional rules); every path and every loop back edge is one obligation. Account length is bounded by the platform limit of 10 MiB. Trusted: rustc front end and models of core/alloc primitives.')
VRF = ('dataflow over MIR with algebraic normal forms (scalars as polynomials, points as linear combinations) and secret-flow analysis',
       'Prover and verifiers are reduced to normal forms over opaque scalars, points and hashes; group relations, transcript contents and secret flow are read off the normal forms on every path. Trusted: curve25519-dalek, hkdf, sha2 and the Solana curve syscalls implement their mathematical specification.')
SDK = ('dataflow over the MIR of the SDK (each feature configuration separately), compile-time constants compared across crates',
       'Every public helper is summarised path by path over symbolic inputs; byte layouts are compared against the layout the on-chain decoder reads. Trusted: rustc front end, borsh primitive encodings.')
ON = ('Every task of the service (main, each spawned or cut-off future, each HTTP handler) is one unit whose body is summarised path by path, loops by inductive widening; locks, spawns, awaits, map updates and aborts are recorded as effects with the facts that hold there. '
      'Shared data is unknown at every acquisition, so every interleaving at lock boundaries is covered; an await is a call returning an arbitrary result. Cancellation inside an await, panics of dependencies and fairness are not modelled. Trusted: rustc front end and the models of tokio locks, spawn, HashMap and solana-client calls.')
ORA = {
 'O01': ('effect analysis over the MIR of the async oracle: guards dominating each worker start, completeness of the loops over accounts, updates and items', ON),
 'O02': ('typestate of the claim map over the MIR of the async oracle: test-and-insert under one exclusive acquisition, release sites with their dominating facts', ON),
 'O03': ('typestate of claims and task handles over the MIR of the async oracle: obligations at every end of a worker and every processed snapshot', ON),
 'O04': ('lock-order and held-across-await analysis over the MIR of all tasks, with interprocedural lock identities', ON),
 'O05': ('value-flow analysis over the MIR of the async oracle: each submitted transaction compared with the API instruction builder summary', ON),
 'O06': ('path-condition analysis over the MIR of the async oracle: guards of purge and answer submissions decided against the API constant', ON),
 'O07': ('effect analysis over the MIR of all tasks: panics, exits and returns depending on network results', ON),
 'O08': ('loop analysis over the MIR of the async oracle: bounded advancing counter, order of network calls and blockhash refresh on every back edge, provenance of cache contents', ON),
 'O09': ('interprocedural field-based taint analysis over the MIR of both client binaries: secrets against formatting, I/O and foreign-crate calls', 'Flow-insensitive and over-approximating inside the two binaries; library calls carry taint from arguments to results; statements of the compiler-derived argument parser are trusted.'),
}
CLI = ('dataflow over the MIR of the CLI dispatcher', 'Each command variant is analysed symbolically; the instruction submitted is compared with the API builder summary.')
API = ('dataflow over the MIR of the instruction builders compared with the guards of the program paths', PROG[1])
def TECHNIQUE(i):
    if i[0] == 'Q': return QUEUE
    if i[0] == 'V': return VRF
    if i == 'S01': return API
    if i == 'S07': return ('compiler expansion of the macro on representative consumer structs; type inspection and dataflow over the MIR of the expansion', 'Sixteen consumer structs (every combination of user-declared required accounts, with look-alike names, extra constraints and instruction arguments) per anchor generation are expanded by the compiler; the derived account validation and the generated request method are analysed symbolically. Other consumer structs are covered only as far as the macro treats fields by name.')
    if i[0] == 'S': return SDK
    if i[0] == 'O': return ORA[i]
    if i[0] == 'K': return CLI
    return PROG
