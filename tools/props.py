prop("C01", "Binary encodings round-trip",
     "Every message, receipt, template section and stored record that the binary format agrees to encode decodes back to an equal value, and decoding consumes exactly the bytes that were written. "
     "A type that announces a fixed encoded size always writes exactly that many bytes.",
     ["inputs"], "all values of all encodable types (any lengths, any variants, any nesting)",
     "Round-trip tests use a few hand-written values and short quickcheck runs; a boundary length, a rare variant or a field dropped on one branch is never sampled.",
     [CO + "codec.rs", CO + "receipt/", CO + "section/", "crates/host/types/src/"],
     ["encode/decode pair of every type with a binary encoding", "section previews followed by section bodies"],
     "product of the encoder's write automaton with its decoder: " + ENGINE,
     "Covers every path of both functions for unbounded lengths; trusts the library models and the listed assumptions (values the encoder refuses are out of scope).")
prop("C02", "Decoding arbitrary bytes never panics and rejects unknown tags",
     "Decoding any byte string as any message, receipt, template or stored record ends in a value or a reported error, never in a panic. "
     "Bytes whose type, kind, version, mode or flag marker is not one the encoder writes are reported as an error rather than accepted.",
     ["inputs"], "all byte strings, truncated ones included",
     "Tests decode well-formed input and one or two truncations; malformed input is unbounded.",
     [CO + "codec.rs", CO + "receipt/", CO + "section/", CO + "ext.rs"],
     ["decode function of every type with a binary encoding", "section container decoding"],
     "panic-reachability and tag-exhaustiveness: " + ENGINE,
     "Every path of every decoder with unconstrained input; arithmetic overflow of length sums and memory exhaustion are assumed away.")
RTF = "crates/host/runtime/src/runtime/runtime.rs"
prop("C03", "Guest code can't exceed its storage permissions",
     "While `svm_alloc` runs, and during the whole verification of a transaction, guest code can neither read nor change any account or variable through any host function, whatever it calls. "
     "Only the called function of a transaction and the constructor of a spawn may change state (variables, balances, new accounts), and no host function lets the guest change its own permission.",
     ["inputs", "histories"], "all guest programs, all sequences of host calls, all transactions",
     "A test template exercises one or two forbidden host functions; every host function, reached in every permission mode, is needed.",
     [RTF, "crates/host/runtime/src/func_env.rs", "crates/host/runtime/src/vmcalls/"],
     ["access mode in force at every invocation of guest code", "reachability of key-value store operations from each registered host function per access mode"],
     "typestate of the access mode and effect analysis of host functions: " + ENGINE,
     "All paths of the runtime and of every registered host function down to the key-value store; the WASM engine and library functions are modelled.")
prop("C04", "Constructors run only at spawn, other functions only in calls",
     "Spawning an account runs a function only if the template lists it as a constructor; calling an account runs a function only if its template does not list it as a constructor. "
     "Otherwise the transaction fails without running it. A function counts as a constructor exactly when its full name appears in the template's constructors section.",
     ["inputs"], "all templates, constructor lists and function names",
     "Tests use one template with one or two constructors; prefixes, later list entries and the combination of both gates are not sampled.",
     [RTF, "crates/host/types/src/template/mod.rs"],
     ["branch outcomes dominating each invocation of guest code", "the constructor test"],
     "path-sensitive dominance of guest calls by the constructor test: " + ENGINE,
     "All paths from each entry point to each guest invocation.")
prop("C05", "A transaction runs exactly what and where it says",
     "Executing a transaction runs the function it names (verification: `svm_verify`) of the template that its target account was spawned from, against the target's own storage, "
     "and the guest reads exactly the bytes of the transaction's input (verification: its verification data). A spawn runs its constructor from the template named in the message, against the new account, with the constructor's input.",
     ["inputs", "histories"], "all transactions, accounts, templates and inputs",
     "With a single template and account in a test, mixed-up accounts, templates or inputs look the same.",
     [RTF, "crates/host/runtime/src/func_env.rs", "crates/host/runtime/src/vmcalls/calldata.rs"],
     ["provenance of module, function, environment and input at each invocation of guest code"],
     "value-provenance dataflow: " + ENGINE,
     "All paths from each entry point to each guest invocation; relies on the state layer returning what is stored under an address.")
FFI = "crates/host/runtime-ffi/src/"
prop("C06", "The C interface contains failures and owns its resources",
     "Whatever valid arguments a C caller passes, and whatever fails or panics behind the interface, no exported function unwinds into its caller and no failure makes later calls fail. "
     "A runtime handle works exactly from its creation until its destruction: a destroyed or unknown handle is refused or ignored rather than used or released again. "
     "Every result owns at most one buffer of exactly the announced size, which releasing the result frees exactly once.",
     ["inputs", "histories", "fault_sequences", "schedules"], "all exported functions, all argument values and call orders, all points where a panic can arise",
     "Double destruction, leaks, unwinding through extern \"C\" and poisoned locks need particular failing calls in particular orders.",
     [FFI + "c_api.rs", FFI + "resource_tracker.rs", FFI + "result.rs"],
     ["panic points outside catch_unwind", "locks held at panic points", "handle registry tests dominating uses of a handle", "buffer ownership"],
     "panic-reachability, lock typestate and ownership dataflow: " + ENGINE,
     "All paths of every exported function; null or dangling pointers other than runtime handles are the caller's responsibility, as documented.")
prop("C07", "Receipts tell the truth; failed transactions change nothing",
     "A receipt reports success only if no guest call failed and all the changes of the transaction were committed, and then it carries the resulting state. "
     "A receipt that reports failure carries an error, and nothing the transaction did (a newly spawned account included) stays behind, committed or pending, while the changes of earlier transactions survive. "
     "A panic during execution leaves no changes behind either.",
     ["inputs", "histories", "fault_sequences"], "all transactions, all points at which guest code or the runtime can fail",
     "A failed transaction's leftovers surface only in a later transaction, after a failure at a particular point.",
     [RTF], ["checkpoint / commit / rollback protocol around guest calls on all return and panic paths"],
     "typestate (saved, touched, committed, trapped) over all return and unwind paths: " + ENGINE,
     "All paths of deploy, spawn, verify and call, unwinding included; failures of the database itself are out of scope.")
prop("C08", "Each C function does what it names and reports its outcome",
     "Each exported function performs the one runtime operation it stands for, on the given runtime, with exactly its own arguments, whatever their values. "
     "It reports an error exactly when the operation did; otherwise its result or output parameters carry the operation's outcome unchanged.",
     ["inputs"], "all exported functions and all argument values",
     "The bindings are thin and tested on single calls; a swapped, truncated or ignored argument or outcome needs particular values.",
     [FFI + "c_api.rs"], ["provenance of each operation's arguments and of each result"],
     "value-provenance dataflow: " + ENGINE,
     "All paths of every exported function down to the runtime operation.")
ST = "crates/host/state/src/"
prop("C09", "Records of different accounts and templates never mix",
     "The state keeps the data of every account, template and variable apart, whatever their addresses: no two records of different accounts, templates or kinds share a storage key. "
     "Each account or template operation reads and writes only records of the address it was given; what is stored at creation or by a setter is what the getter of the same name returns, and setting one field of an account leaves its other fields as they were.",
     ["inputs", "histories"], "all addresses, variable positions and sequences of account and template operations",
     "Tests use few accounts; colliding or truncated keys and clobbered sibling fields need particular addresses or sequences.",
     [ST + "account_storage.rs", ST + "template_storage.rs", ST + "global_state.rs"],
     ["key of every access to the key-value store", "pairwise disjointness and injectivity of key formats", "fields written and read by each operation"],
     "value-provenance dataflow and key-format overlap analysis: " + ENGINE,
     "All paths of every account and template operation; relies on the hash function not colliding.")
RTV = "crates/host/runtime/src/vmcalls/"
prop("C10", "Coins are conserved and spent only by their owner",
     "A transfer moves exactly its amount from the source to the destination, whatever the amount and the two accounts (the same account included), or fails without moving anything; it never leaves only one side written, never wraps around, and never takes more than the source has. "
     "Guest code can only spend the coins of the account it executes for. No other host function changes a balance, newly spawned accounts start with none and do not replace existing ones, and `increase_balance` adds exactly its amount or fails.",
     ["inputs", "histories", "fault_sequences"], "all accounts, balances and amounts, all guest programs",
     "Tests transfer small amounts between two distinct accounts; equal accounts, extreme balances and a failure between the two writes are not sampled.",
     [RTV + "transfer.rs", RTF, ST + "account_storage.rs"],
     ["symbolic ledger of every account record read and written by transfers", "balance writes reachable from every host function and transaction"],
     "symbolic-ledger dataflow with path-sensitive aliasing: " + ENGINE,
     "All paths of the transfer operations, all host functions and all transaction entry points; failures of the database are out of scope.")
prop("C11", "Reads see the latest write, or exactly the layer asked for",
     "A read of the state without a layer returns the value most recently written under its key, whether that write is still unsaved, saved for the next layer or committed. "
     "A read restricted to a past layer returns exactly the value the key had when that layer was committed, whatever happened since; the restriction applies to every read operation and to reads only: updating a record starts from its most recent value. "
     "Checkpointing keeps every pending write, and rolling back discards exactly the writes that were not checkpointed.",
     ["inputs", "histories"], "all keys, values, layers and sequences of writes, checkpoints, commits, rollbacks and reads",
     "Tests follow a few short histories over a couple of keys; precedence between unsaved, saved and committed values and reads at older layers depend on the whole history.",
     [ST + "storage.rs", ST + "global_state.rs", ST + "account_storage.rs", ST + "template_storage.rs"],
     ["answer of every path of the read operations", "meaning of each SELECT", "effect of writing, checkpoint and rollback on the change sets", "layer argument of every read of the key-value store"],
     "path-sensitive dataflow over symbolic change sets with parsed SQL: " + ENGINE,
     "All paths of the store's operations for arbitrary change sets; the database is trusted to execute the parsed statements.")
prop("C12", "Commits are all-or-nothing and reopening resumes after the last one",
     "Wherever a crash falls, reopening the database finds exactly the layers whose commit succeeded, each with all the changes saved for it, and goes on after the last of them; partially written layers leave nothing behind. "
     "Committing refuses unsaved changes, stores every saved change under the next layer number and reports that number and the stored fingerprint. "
     "Rewinding refuses unsaved changes and unknown layers; otherwise it removes exactly the later layers with their data and all saved changes, and goes on after the layer named.",
     ["inputs", "histories", "crash_points"], "all histories, all sets of changes and all crash points between database statements",
     "No test crashes between two statements; the order of statements on every path decides what a crash leaves behind.",
     [ST + "storage.rs", ST + "resources/schema.sql"],
     ["order and meaning of the SQL statements on every path of commit, rewind and opening", "coverage of every saved change", "store fields at every return"],
     "database typestate with parsed SQL over all paths: " + ENGINE,
     "Every path and so every crash point between statements; SQLite is trusted to execute single statements atomically and durably. Retrying after the database itself reported an error is out of scope.")
prop("C13", "The state fingerprint is a function of the state",
     "The fingerprint of a layer depends only on the set of current (key, value) pairs: it is the XOR over all pairs of the hash of the whole pair. "
     "Hence two histories that lead to the same state give the same fingerprint, writing back an old value restores the old fingerprint, and any change of a key or value changes what is combined.",
     ["inputs", "histories"], "all histories and all states",
     "Tests compare a few fingerprints; overwritten values, repeated checkpoints and order-independence range over all histories.",
     [ST + "storage.rs"],
     ["contribution of each change to the pending fingerprint on every path", "fingerprint stored and reported by commit", "byte-wise combination and hash of a pair"],
     "symbolic sums over GF(2) along all paths: " + ENGINE,
     "All paths of checkpoint and commit for arbitrary change sets; relies on the hash function not colliding.")
prop("C14", "Execution is deterministic",
     "What a transaction does, what its receipt says and the bytes it is encoded to (binary or JSON) are functions of the state and the transaction alone: "
     "two nodes, or two runs on one node, agree byte for byte. Nothing depends on a clock, randomness, the environment, memory addresses, process-wide counters or the order in which hash maps and hash sets yield their elements.",
     ["inputs", "schedules", "histories"], "all inputs and all runs (hash seeds, clocks, addresses, earlier activity of the process)",
     "Nodes must agree on every receipt and state root; a test runs in one process with one seed and mostly with sets of one element, so it can't see what differs between runs.",
     ["crates/host/codec/src/receipt/touched_accounts.rs", "crates/host/codec/src/api/json/receipt.rs", ST + "storage.rs", ST + "global_state.rs", RTV],
     ["every enumeration of a hash map or set and what its order reaches", "every call to a source of run-dependent values and where its result flows"],
     "interprocedural order-taint and source-taint dataflow over rustc MIR",
     "All functions of the host crates; effects through library functions not known to depend on order are not judged; the WASM engine is trusted.")
prop("C15", "Nothing is deployed or spawned without the gas for it",
     "A template is stored, and an account created and its constructor run, only if the transaction's gas limit covers the price: that of the whole message and, for a spawn, also that of the named constructor under the code of the named template, "
     "whether or not that price was cached. Otherwise the receipt reports out-of-gas and nothing happened; conversely a deployment whose price the limit covers isn't refused as out-of-gas, and an absent limit never runs out. "
     "Charging never increases the gas left, and a deployment's receipt reports its price as the gas used.",
     ["inputs", "histories"], "all messages, gas limits and earlier transactions (cache contents)",
     "Tests use a handful of limits; the boundary, the absent limit, cached prices and amounts that would wrap are a matter of every limit and price.",
     [RTF, "crates/host/runtime/src/runtime/gas_tank.rs", "crates/host/runtime/src/runtime/price_cache.rs", "crates/host/types/src/gas/mod.rs", "crates/host/gas/src/lib.rs"],
     ["path conditions at every creation, guest invocation and out-of-gas return of deploy and spawn", "terms that the limit is compared with", "keys that prices are cached under"],
     "path-sensitive dominance with linear branch facts: " + ENGINE,
     "All paths; how a program is priced (svm_gas::ProgramPricing) is not judged here. Calls and verifications charge no gas in this version and are not covered.")
prop("C16", "Validation accepts only well-behaved templates",
     "A template is accepted by validation only if none of its functions contains a floating-point instruction, it exports `svm_alloc` taking and returning one i32 and `svm_verify` taking nothing and returning one i32, "
     "its functions, imported ones included, number at most 65535, and, for fixed-gas templates, no function contains a loop or an indirect call and no function can call itself, directly or through others. "
     "Every instruction of every function is examined, instructions outside these classes are no reason for rejection, and malformed modules are rejected with an error, not a panic.",
     ["inputs"], "all WASM modules",
     "Tests validate a few dozen hand-written modules; the guarantee concerns every opcode at every place and every call graph.",
     ["crates/host/program/src/program.rs", "crates/host/program/src/lib.rs", "crates/host/program/src/visitor.rs", "crates/host/program/src/function/iter.rs", "crates/host/gas/src/validation.rs", "crates/host/gas/src/graph/sort.rs", RTF],
     ["opcode decision for each of the variants of the instruction enum", "traversal automaton of the visitor driver", "signature chain of required exports", "conditions at each accepting path", "queue discipline of the topological sort"],
     "path-sensitive dataflow with a traversal automaton and exhaustive opcode-table comparison: " + ENGINE,
     "All paths of Program::new, the visitor driver, the fixed-gas visitor and the topological sort; parity-wasm's decoding is trusted.")
prop("C17", "Storage variables hold what was stored in them",
     "For every layout, a variable read back has exactly the bytes last stored in it, whatever its size and offset and however many storage segments it straddles, and zeros before the first store; "
     "storing to one variable changes no other. Every variable of a layout has its own bytes: the variables are laid out one after the other in the order of their sizes and found under consecutive ids. "
     "Integers are stored and read in little-endian order, and the storage host functions act on the variable, value and memory range that the guest names, in full; looking up an unknown variable with `try_get` gives none.",
     ["inputs", "histories"], "all layouts, variables, values and sequences of stores and loads",
     "Tests use one layout and a few values; which bytes of which segments are touched depends on every offset and size.",
     [ST + "account_storage.rs", "crates/host/layout/src/fixed.rs", RTV + "storage.rs"],
     ["bytes of the value and range of the segment of every copy", "index, range and total of the segments on every path of the segmentation, in linear arithmetic", "offsets and ids that layouts assign", "arguments passed on by the storage host functions"],
     "dataflow over symbolic slices with linear (Fourier-Motzkin) branch facts: " + ENGINE,
     "All offsets, sizes and values; loops over segments and variables are followed for three rounds with distinct symbols. Variables of size zero are out of scope; the store itself is C11's.")
WA = "crates/wasm/"
prop("C18", "What the ABI encodes, it decodes",
     "Call data and return data survive the ABI: for every value of every ABI type (integers, Amount, bool, unit, Address, Option, arrays of up to ten items, tuples of up to six) decoding its encoding gives back the value, converted to its Rust type, "
     "and consumes exactly its bytes, so that values encoded one after the other are read back one after the other in the same order. `byte_size` is exactly the number of bytes the encoding takes and `max_byte_size` no less; "
     "a Value is encoded like what it holds. Truncated data and bytes that are no marker are never decoded to a value, and at the end of the data there is no next value.",
     ["inputs"], "all values of the ABI types and all byte strings given to the decoder",
     "Tests encode a few numbers; widths, markers, sign and array lengths interact, and a marker that collides or is a byte short shows only for some values.",
     [WA + "abi-encoder/src/types/numeric.rs", WA + "abi-encoder/src/types/small_array.rs", WA + "abi-encoder/src/types/tuples.rs", WA + "abi-decoder/src/decoder.rs", WA + "abi-decoder/src/cursor.rs", WA + "abi-decoder/src/calldata.rs", WA + "abi-layout/src/lib.rs", WA + "sdk-types/src/value.rs", WA + "sdk-std/src/vec.rs"],
     ["symbolic bytes pushed on every path of every encoder", "paths of the decoder and of the conversions over these bytes", "sizes on the same paths", "decoder paths over every prefix and every byte that is no marker"],
     "symbolic-term dataflow through encoder and decoder with interval facts: " + ENGINE,
     "All integer values by interval of encoded width; array lengths 0 to 10 with elements u8, bool and Address and length 1 for the others; tuples with one choice of types. Arrays of arrays are documented not to decode and are out of scope.")
prop("C19", "Receipts carry what the guest produced",
     "The receipt of a successful call or spawn carries exactly the bytes of guest memory that the executed function announced as its return data, and nothing if it announced none. "
     "The receipt of any executed transaction, failed ones included, carries the log entries the executed function wrote, each with exactly the bytes it named, complete and in order. "
     "A success lists the account executed for and every account whose balance guest code changed as touched, and a spawn names the account it created.",
     ["inputs", "histories"], "all guest programs, memory ranges, log sequences and transactions",
     "Tests use templates that return one small value and log once; positions in memory, lengths, several entries and entries of failed runs are not sampled.",
     [RTF, "crates/host/runtime/src/func_env.rs", "crates/host/runtime/src/vmcalls/", "crates/host/types/src/receipt/"],
     ["the environment's log, return data and touched accounts", "conversion of an outcome to a receipt"],
     "value-provenance dataflow with symbolic guest effects: " + ENGINE,
     "All paths of the runtime and of the host functions; ranges of memory are represented by a few lengths with one symbol per byte, log sequences by two entries. Log entries of svm_alloc are not covered (this version drops them).")
prop("N01", "The fixed price of a function bounds what running it can cost",
     "For a fixed-gas template the price computed for a function is no less than the summed price of the instructions executed on any run of it, and is the price of some path through it.",
     ["inputs"], "all fixed-gas templates and all runs of their functions",
     "Tests price a few hand-written modules; programs are unbounded.",
     ["crates/host/gas/src/"], ["ProgramPricing, the graph of code blocks and its longest path"],
     na="The claim relates the result of an unbounded graph computation (the heaviest path in a DAG built at run time from the guest's code) to runs of another program. "
        "No dataflow or typestate argument in reach bounds it: it needs a functional-correctness proof of the graph construction and of the longest-path search. C16 decides the parts that are local (loops, indirect and recursive calls are refused) and C15 that the price computed is the one enforced.")
prop("N02", "Every transaction ends after an amount of work bounded by its gas limit",
     "Running a transaction terminates after a number of guest instructions bounded by its gas limit, whatever the template.",
     ["inputs"], "all templates, inputs and gas limits",
     "Termination is a statement about all runs of arbitrary guest code.",
     ["crates/host/runtime/src/runtime/runtime.rs", "crates/host/runtime/src/wasm_store.rs"], ["execution of guest functions by the WASM engine"],
     na="This version does not meter guest code (calls and verifications charge nothing, templates aren't validated on deployment, and loops are legal outside fixed gas), so there is no mechanism in the source to analyse; "
        "the bound would be a property of the guest's runs inside the WASM engine, which a static analysis of this source cannot establish.")
prop("N03", "Committed layers survive power failures",
     "Once a commit has been reported, its layer is found again after a power failure at any later moment, at the level of sectors and file-system caches.",
     ["crash_points"], "all crash points inside a database statement",
     "Tests never cut power.",
     ["crates/host/state/src/storage.rs"], ["SQLite statements issued by the store"],
     na="What happens within one statement is decided by SQLite, the file system and the disk, none of which is in this source. C12 decides the order of statements on every path (all crash points between them) under the assumption that SQLite keeps its documented promises.")
