COMMON = "Seeded sampling of schedules, faults and histories on the compiled code; sequentially consistent interleavings only; trusts the simulated kernel interfaces and the reference model."
CL = "client/src/types/"
prop("C01", "Acknowledged commits survive crashes",
 "Once a commit to a snapshot file has returned success, a process kill or power failure at any later moment leaves a file from which every client, secret and store entry of that commit (or of a later one) can be loaded with the same key. A crash while a commit is in progress leaves either the complete previous snapshot or the complete new one, never a mixture or an unreadable file.",
 ["crash_points", "fault_sequences", "histories"], "every I/O call and scheduling point of one or several commits as the crash point, every set of unflushed writes and directory updates lost, any sequence of commits, crashes and restarts",
 "The tests commit and reload in a process that never dies, on a file system that loses nothing.",
 ["client/src/types/stronghold.rs", "client/src/types/snapshot.rs", "engine/src/snapshot/logic.rs"],
 [("temporary file, flush, rename", "engine/src/snapshot/logic.rs write_to"), ("commit", "client/src/types/stronghold.rs commit_with_keyprovider")],
 [("snapshot file", "the durable state of all clients", "engine/src/snapshot/logic.rs")], ["reload after restart"], claim=COMMON + " Crash states follow a POSIX-like model: unflushed data and directory updates survive in any subset.")
prop("C02", "A failed commit loses nothing",
 "When a commit fails because of a disk error (no space, I/O error, short or failed write, failed flush or rename, no free descriptor), the call returns an error, the snapshot file that was there before can still be loaded completely unless the complete new one is already in its place, and all clients in memory are unchanged. Once the disk works again the next commit succeeds and saves everything, and failed commits leave no stray files behind.",
 ["fault_sequences", "histories"], "every I/O call of a commit failing in every way, several failures in a row, concurrent users",
 "The tests never make an I/O call fail.",
 ["client/src/types/stronghold.rs", "engine/src/snapshot/logic.rs"],
 [("write aside, then rename", "engine/src/snapshot/logic.rs write_to")], [], ["commit result", "directory listing", "reload"],
 claim=COMMON + " Faults are injected per I/O call of the simulated file system.")
prop("C03", "Damaged or foreign snapshots are rejected without harm",
 "Loading a snapshot file that is truncated, altered in any byte, extended, not a snapshot at all, of another version, or opened with a wrong key returns an error; it never panics, never yields altered data and leaves loaded clients and the state loaded earlier as they were. The intact file with the right key then still loads exactly what was saved.",
 ["inputs", "fault_sequences"], "every truncation point, bit flip, extension, replacement, read error and short read of any snapshot; every wrong key",
 "The tests damage one or two fixed bytes; the space of damaged files is unbounded.",
 ["engine/src/snapshot/logic.rs", "client/src/types/snapshot.rs", "client/src/types/stronghold.rs", "engine/src/snapshot/compression/decoder.rs"],
 [("header check, authenticated decryption", "engine/src/snapshot/logic.rs read_from, check_header, read")], [], ["load result", "state after the failed load"],
 claim=COMMON + " Damage is sampled per byte, length and region of real snapshot files, with wrong keys.")
prop("C04", "Nothing secret reaches the disk in the clear",
 "Whatever is written to disk, in file contents or file names, contained in snapshot files, in temporary files of committed, failed or interrupted commits or in file-backed secret memory, is never a vault secret, store value, snapshot key or passphrase in the clear.",
 ["histories", "fault_sequences", "crash_points"], "every write call of every run: any sequence of client operations and commits, with faults and crashes",
 "The tests look at results, never at the bytes handed to the operating system.",
 ["engine/src/snapshot/logic.rs", "client/src/types/snapshot.rs", "engine/runtime/src/memories/file_memory.rs"],
 [("encryption before the file is written", "engine/src/snapshot/logic.rs write"), ("file shards hold random pads", "engine/runtime/src/memories/noncontiguous_memory.rs")], [], ["bytes of write calls", "path names"],
 claim=COMMON + " Every byte handed to a write call is searched for every secret of the run (raw, and the ends of secrets and keys in hex and base64).")
prop("C05", "Concurrent vault operations are atomic",
 "When several threads use the vaults of one client at once (write, read through procedures, existence checks, revoke, delete, clean up, copy), every result is one that some one-after-the-other order of the operations, compatible with real time, would give; a deletion counts as a revocation followed by a clean-up. A secret that was written is read back exactly, until it is overwritten or revoked.",
 ["schedules", "histories"], "every interleaving of 2-4 threads over histories of vault operations on shared records, vaults and clients",
 "Tests run operations from one thread or check that nothing panics; they do not control interleavings or compare results with any order.",
 ["client/src/types/client.rs", "client/src/types/vault.rs", "client/src/procedures/clientrunner.rs", "client/src/security/keystore.rs", "engine/src/vault/view.rs", "engine/runtime/src/boxed.rs"],
 [("key store lock then database lock", "client/src/procedures/clientrunner.rs"), ("guarded memory borrow counts", "engine/runtime/src/boxed.rs")],
 [("vault records", "what each location holds", "engine/src/vault/view.rs")], ["results of the client API"],
 claim=COMMON + " Linearizability checked per run against an executable model of a client's vaults.")
prop("C06", "Concurrent store operations are atomic",
 "When several threads use one client's store or the session store at once, every result of insert, get, delete, contains, keys and clear is one that some one-after-the-other order compatible with real time would give. An inserted value is returned exactly, and an insertion or deletion returns the value it displaced.",
 ["schedules", "histories"], "every interleaving of 2-4 threads over histories of store operations on shared keys",
 "Tests use the store from one thread.",
 ["client/src/types/store.rs", "engine/src/store/storage/cache.rs"],
 [("one lock around the cache", "client/src/types/store.rs")], [("table", "the key-value pairs", "engine/src/store/storage/cache.rs")], ["results of the store API"],
 claim=COMMON + " Linearizability checked per run against a map.")
prop("C07", "Store lifetimes follow the clock",
 "A store entry inserted with a lifetime is returned until that time has passed on the system clock and is never returned as a value afterwards, also across commit and reload, however the clock is slewed, stepped forwards or set back, and whatever the lifetime is. No clock movement or lifetime makes an operation panic, and entries without a lifetime never expire.",
 ["fault_sequences", "histories", "inputs"], "every sequence of store operations, lifetimes from zero to the maximum, clock steps in both directions and restarts",
 "The tests sleep for a few real milliseconds with one lifetime; they cannot step the clock.",
 ["client/src/types/store.rs", "engine/src/store/storage/cache.rs", "engine/src/store/storage/value.rs"],
 [("expiry instant compared with now on each access", "engine/src/store/storage/cache.rs")], [], ["results of the store API under a simulated clock"],
 claim=COMMON + " The wall clock is simulated; results compared with a map with expiry instants.")
prop("C08", "Client registry operations are atomic",
 "Creating, loading, getting, unloading, purging, writing and clearing clients from several threads at once gives results that some one-after-the-other order compatible with real time would give: a loaded client cannot be loaded a second time, an unloaded or purged one is not found, all handles of one loaded client see the same data, and a client loaded from the snapshot holds exactly what was last saved for it.",
 ["schedules", "histories"], "every interleaving of 2-4 threads over histories of registry, snapshot and client operations",
 "Tests exercise the registry from one thread in one fixed order.",
 ["client/src/types/stronghold.rs", "client/src/types/snapshot.rs"],
 [("snapshot lock then clients lock", "client/src/types/stronghold.rs")], [("clients", "the loaded clients", "client/src/types/stronghold.rs"), ("snapshot", "the clients saved in memory", "client/src/types/stronghold.rs")], ["results of the API"],
 claim=COMMON + " Linearizability checked per run against a model of registry and snapshot.")
prop("C09", "Every call returns",
 "Whatever mix of client, vault, store, procedure, synchronisation, commit, load and clear calls several threads make, none of them deadlocks, waits for ever or panics: once scheduling is fair every call returns, and the instance remains usable afterwards. The same holds while disk operations and memory locking fail.",
 ["schedules", "fault_sequences", "histories"], "every interleaving of 2-5 threads running any mix of all operations, with injected faults",
 "A deadlock needs one particular interleaving; tests that run threads freely do not produce it on demand.",
 ["client/src/types/stronghold.rs", "client/src/types/client.rs", "client/src/procedures/clientrunner.rs", "engine/runtime/src/memories/noncontiguous_memory.rs"],
 [("lock order snapshot, clients, key store, database, store", "client/src/types/")], [], ["progress within a bounded number of scheduling steps"],
 claim=COMMON + " Deadlocks, panics, lack of progress under a fair schedule and an instance that no longer works are violations.")
prop("C10", "A commit saves a consistent state of every client",
 "What a commit writes for each loaded client is that client's complete state (vaults, keys and store) at one instant between the call and its return, while other threads keep changing it; clients that are not loaded keep their last saved state. Loading the file in a new process gives exactly that state: everything acknowledged before the commit began is there, nothing is torn, revived or invented.",
 ["schedules", "histories"], "every interleaving of commits with writers of secrets and store entries on several clients, followed by a reload",
 "Tests commit while nothing else runs.",
 ["client/src/types/stronghold.rs", "client/src/types/snapshot.rs"],
 [("key store, database and store locks held together while a client is copied", "client/src/types/stronghold.rs write_with_clientid")], [], ["state after reload"],
 claim=COMMON + " The reloaded state is checked as part of the linearizable history.")
prop("C11", "Snapshot keys keep their value and stay in custody",
 "A key given to a key provider, or stored in the instance as its snapshot key, always unlocks to the same bytes, no matter how many threads use it at once or how often it is refreshed, so that a snapshot committed with it can be opened with it. The parts kept in memory never contain the key itself, and if key material cannot be reconstructed or random bytes are not available the operation reports an error instead of using another key.",
 ["schedules", "fault_sequences", "histories"], "every interleaving of unlocks, commits, clones and refreshes of shared keys; failing memory, file and random sources",
 "Tests unlock a key once, from one thread.",
 ["engine/runtime/src/memories/noncontiguous_memory.rs", "client/src/security/keyprovider.rs", "client/src/types/snapshot.rs"],
 [("both shards replaced under both locks", "engine/runtime/src/memories/noncontiguous_memory.rs refresh")], [("shards", "pad and masked key", "engine/runtime/src/memories/noncontiguous_memory.rs")], ["unlocked bytes", "readable memory"],
 claim=COMMON + " Unlocked bytes compared with the key; stored keys checked by opening the files they wrote.")
prop("C12", "Guarded memory is unreadable unless borrowed and wiped when freed",
 "Secret buffers are readable or writable only while at least one borrow of that kind exists, whatever threads borrow and release them at the same time; while nothing borrows them their pages are inaccessible, and they are locked against swapping as far as the system allows it. When they are released their contents are overwritten, also on error paths, and failing memory calls end in an error or an abort, never in an unprotected secret.",
 ["schedules", "fault_sequences"], "every interleaving of borrows, clones and drops of shared buffers by 2-4 threads; every memory call failing",
 "Tests borrow from one thread and cannot observe page protection at every step.",
 ["engine/runtime/src/boxed.rs", "engine/runtime/src/memories/buffer.rs", "engine/runtime/src/memories/ram_memory.rs"],
 [("borrow counting and page protection", "engine/runtime/src/boxed.rs retain, release")], [("prot, refs", "kind and number of borrows", "engine/runtime/src/boxed.rs")], ["page protection of every secret region at every step"],
 claim=COMMON + " Memory calls are observed at the libc boundary; at most 255 borrows at a time.")
prop("C13", "A failed procedure or chain leaves no trace",
 "When a procedure, or any step of a chain of procedures, fails, the call returns an error, every secret that existed before still exists with its old value, and nothing the failed chain produced can be used. When a chain succeeds, every output is stored at its location and later steps see the outputs of earlier ones.",
 ["inputs", "histories", "fault_sequences"], "every chain of vault procedures failing at every step for every cause, over any prior vault contents",
 "Tests run one failing chain over an empty vault.",
 ["client/src/types/client.rs", "client/src/procedures/types.rs", "client/src/procedures/primitives.rs", "client/src/procedures/clientrunner.rs"],
 [("undo of the outputs of earlier steps", "client/src/types/client.rs execute_procedure_chained")], [], ["vault contents before and after"],
 claim=COMMON + " A model with the plaintexts predicts every result, output and stored secret; when the random source fails the program may also stop.")
prop("C14", "Synchronisation copies exactly what was selected",
 "Synchronising vaults within a client or between two clients gives the target exactly the selected records of the selected vaults under the mapped names: missing records are added, existing ones are kept or replaced as the merge policy says, and everything else in the target and all of the source stays as it was. Doing it again changes nothing, and records that are revoked in the source are not copied.",
 ["inputs", "histories", "schedules"], "every configuration of selection, mapping and policy over any contents of the two sides, repeated, and with concurrent users",
 "Tests run a handful of configurations once.",
 ["client/src/sync.rs", "client/src/types/client.rs", "engine/src/vault/view.rs"],
 [("difference, export, import", "client/src/sync.rs")], [], ["records of source and target before and after"],
 claim=COMMON + " Complete contents compared with a model; under conflicting concurrent use (which the API documents as racy) only containment is checked.")
prop("C15", "Transactions are serializable",
 "Transactions on shared transactional variables run by several threads have the effect of running one after the other in some order compatible with real time, each exactly once: no update is lost, no value appears that no transaction wrote, and invariants kept by every transaction hold in whatever a committed transaction returned.",
 ["schedules", "programs"], "every interleaving of 2-4 threads running read-write and read-only transactions over shared variables",
 "Tests count the outcome of a few free-running threads.",
 ["stm/src/stm/stm.rs", "stm/src/stm/transaction.rs", "stm/src/stm/tvar.rs"],
 [("version clock, lock and validate at commit", "stm/src/stm/stm.rs read_write")], [("version", "clock of the last writer", "stm/src/stm/tvar.rs")], ["transaction results", "final values"],
 claim=COMMON + " Every atomic and lock operation of the transaction code is a scheduling point; committed histories are checked for strict serializability.")
prop("C16", "Transactions make progress and release what they lock",
 "Transactions that keep conflicting always end: whatever the interleaving, once scheduling is fair every transaction returns after a bounded number of retries, nothing stays locked behind it, and a transaction that retries leaves no effect of its discarded attempts.",
 ["schedules", "programs"], "every interleaving of conflicting transactions with opposite access orders",
 "Livelock and deadlock need particular interleavings that free-running tests do not control.",
 ["stm/src/stm/stm.rs", "stm/src/stm/transaction.rs", "stm/src/stm/tvar.rs"],
 [("bounded lock attempts, then restart", "stm/src/stm/tvar.rs bounded_lock")], [], ["progress within a bounded number of steps"],
 claim=COMMON + " Progress means: within a bounded number of steps after scheduling becomes fair.")
prop("C17", "Instances that share a snapshot file never disturb each other",
 "When several instances, in threads of one program or in programs of their own, commit to and load from the same snapshot file, every load gives the complete contents that exactly one commit wrote, and never those from before the last commit that had returned success when the load began. Nobody's commit or load fails or loses data because of somebody else's, not even when another instance is killed in the middle of one; nothing but the file is left behind by those that were not killed, and after a power failure the file holds the last acknowledged commit or a later one.",
 ["schedules", "crash_points", "fault_sequences", "histories"], "every interleaving of the I/O of 2-4 instances that commit and load, with instances killed at any I/O call, failing I/O calls, and a power failure at any point",
 "Tests use one instance, or several one after the other, and never kill any.",
 ["engine/src/snapshot/logic.rs", "client/src/types/snapshot.rs", "client/src/types/stronghold.rs"],
 [("temporary file of its own, flush, rename over the file", "engine/src/snapshot/logic.rs write_to"), ("one open file is read to the end", "engine/src/snapshot/logic.rs read_from")],
 [("snapshot file", "the contents of the commit that renamed last", "engine/src/snapshot/logic.rs")], ["results of commits and loads", "complete contents after a load", "files on the disk"],
 claim=COMMON + " Every load is compared with the complete contents of the commit it shows; the order of commits and loads is checked for linearizability, and separately for durability across a power failure.")
prop("C18", "Exported client data opens only for its recipient and arrives intact",
 "A snapshot exported for a recipient's public key contains exactly the selected records and can be opened only with the matching secret key; a recipient that imports it obtains exactly those records under the mapped names according to the merge policy and keeps everything else. A transfer that is truncated, altered, malformed or meant for somebody else is rejected with an error and changes nothing; duplicated or reordered deliveries have the effect of delivering each once.",
 ["fault_sequences", "inputs", "histories"], "every sequence of exports and imports between parties with messages lost, duplicated, reordered, truncated and altered",
 "Tests import one intact message once.",
 ["client/src/types/snapshot.rs", "client/src/sync.rs", "engine/src/snapshot/logic.rs", "engine/src/snapshot/compression/decoder.rs"],
 [("key agreement and authenticated encryption", "client/src/types/snapshot.rs export_to_serialized_state, import_from_serialized_state")], [], ["records of the recipient"],
 claim=COMMON + " The network is simulated; complete contents of every party compared with a model after every delivery.")
prop("C19", "File-backed secret memory keeps its value and cleans up",
 "Memory split over files and RAM always unlocks to the bytes it was allocated with, from any number of threads, and each part alone reveals nothing. Its files are not readable by others or while locked, every file is overwritten and removed when the memory is dropped or refreshed, and disk errors are reported as errors without leaving files behind or returning wrong bytes.",
 ["schedules", "fault_sequences"], "every interleaving of unlocks, refreshes, clones and drops by 2-3 threads, with failing, short and torn file operations",
 "Tests allocate and unlock once on a working disk.",
 ["engine/runtime/src/memories/file_memory.rs", "engine/runtime/src/memories/noncontiguous_memory.rs"],
 [("permissions and zeroing of the file", "engine/runtime/src/memories/file_memory.rs")], [], ["unlocked bytes", "files left"],
 claim=COMMON + " Modes, contents and removals of the files are watched at every call of the simulated file system.")
prop("C20", "Removed secrets are gone",
 "After a secret is revoked and cleaned up, a client is purged, or the instance is cleared, no later operation, commit or reload by anyone gives that secret back, in whatever order threads did this. Ciphertext and keys of removed clients are no longer part of snapshots committed afterwards, and everything else stays.",
 ["schedules", "histories"], "every interleaving and order of removal with reads, writes, commits, loads and reloads",
 "Tests remove one item and look once.",
 ["client/src/types/stronghold.rs", "client/src/types/snapshot.rs", "client/src/types/vault.rs", "engine/src/vault/view.rs"],
 [("revocation, garbage collection, purge, clear", "client/src/types/stronghold.rs purge_client, clear")], [], ["state and snapshot contents after the removal"],
 claim=COMMON + " Reloads and bytes of later snapshots are checked against the model.")
prop("C21", "Fresh randomness for every key and snapshot",
 "Every generated key, snapshot encryption and vault encryption uses random bytes never used before: two snapshots or exports, even of the same state with the same key, share no ephemeral key or ciphertext, and two generated keys differ. When the system's random source fails, the operation fails with an error or stops; it never goes on with predictable bytes.",
 ["fault_sequences", "histories"], "every history of generating procedures, writes and commits, with the random source failing at any call",
 "Tests never make the random source fail and do not compare outputs across operations.",
 ["engine/src/snapshot/logic.rs", "client/src/internal/provider.rs", "client/src/procedures/primitives.rs", "engine/src/vault/crypto_box.rs"],
 [("random nonces and ephemeral keys", "engine/src/snapshot/logic.rs write; client/src/internal/provider.rs box_seal")], [], ["bytes written", "generated public keys"],
 claim=COMMON + " Every history is lived by two processes that differ only in the bytes of their random source; what must be random may not coincide.")
prop("C22", "Files and messages written by earlier builds stay readable",
 "A snapshot file or an exported message written by an earlier build with the same format version opens in the current one with the same key or passphrase: every client, vault, record and store entry (with what is left of its lifetime) is found under the same names and locations with the same value and everything else is absent, and from there on the data can be used, changed, committed, lost in a crash and loaded again like any other.",
 ["inputs", "histories", "crash_points"], "every history of data operations whose result an earlier build saved, under every kind of name, location, key derivation and size, followed by every history of the current build with failing I/O and crashes",
 "The tests write and read with one and the same build: a change of format, of derived identifiers or of derived keys on both sides at once does not show.",
 ["engine/src/snapshot/logic.rs", "client/src/types/location.rs", "client/src/types/snapshot.rs", "client/src/security/keyprovider.rs", "client/src/internal/provider.rs", "engine/src/vault/view.rs", "engine/src/store/storage/cache.rs"],
 [("derived identifiers", "client/src/types/location.rs derive_vault_id, derive_record_id"), ("serialised state", "client/src/types/snapshot.rs, engine/src/vault/view.rs Record"), ("derived keys", "client/src/security/keyprovider.rs")],
 [("format version", "magic and version bytes of the file", "engine/src/snapshot/logic.rs")], ["complete contents after a load or import"],
 claim=COMMON + " 48 files and messages made by the original code (sim/golden.json) are the states left by an earlier process; the history continues on the current code.")
