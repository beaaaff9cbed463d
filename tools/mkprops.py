#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the compact table below."""
import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=stmt,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(obs),hook_needed=hook)))

p("C01","Sparse Merkle tree: map contents and history-independent root",
 "After any sequence of batched inserts, overwrites and deletions applied to the sparse Merkle tree (each batch sorted, without duplicate keys), reading a key returns exactly the last value written to it, and nothing if it was never written or was deleted. The root depends only on the resulting key-to-value contents: not on the order, the splitting into batches, intermediate commits, reopening the tree, re-writing a key with the value it already has, or how much of the tree is cached.",
 ["histories","inputs"],"all update/commit/reopen histories over keys that share long prefixes and differ at batch boundaries, any number of batches",
 "Tests use a handful of random key sets and compare a few hand-picked orders; deletions mixed with updates in the same batch, re-writes of equal values and reopen in between are not enumerated.",
 ["pkg/mapserver/trie/trie.go","pkg/mapserver/trie/trie_tools.go","pkg/mapserver/trie/trie_cache.go"],
 [("update/updateLeft/updateRight/updateParallel","pkg/mapserver/trie/trie.go"),("maybeAddShortcutToKV, moveUpShortcut","pkg/mapserver/trie/trie.go"),("Get","pkg/mapserver/trie/trie_tools.go")],
 [("Root","current root of the tree","pkg/mapserver/trie/trie.go")],["Update result, Root, Get"])

p("C02","Every key has a correct Merkle proof of presence or absence",
 "For every tree content and every key, the tree produces a proof whose presence flag says exactly whether the key is in the tree and whose value is the stored one; the proof verifies under the current root for that key, in plain and in compressed form. A proof requested for the root of any committed, still stored version of the tree verifies under that root.",
 ["histories","inputs"],"all contents reachable by short histories over colliding keys, and every key of the alphabet, present or absent (empty subtree and foreign-leaf absence)",
 "Tests check proofs for a few random contents; absence next to a leaf at a batch boundary, proofs after deletions moved a leaf up, and compressed proofs are only sampled.",
 ["pkg/mapserver/trie/trie_merkle_proof.go","pkg/mapserver/trie/trie.go"],
 [("MerkleProof, MerkleProofCompressed","pkg/mapserver/trie/trie_merkle_proof.go"),("VerifyInclusion, VerifyNonInclusion and compressed variants","pkg/mapserver/trie/trie_merkle_proof.go")],
 (),["MerkleProof*, Verify*"])

p("C03","No Merkle proof verifies for a false statement",
 "Whatever bytes a proof consists of, presence verification accepts a key/value pair only if the tree with that root holds it, and absence verification accepts a key only if the tree does not hold it; this also holds for proofs assembled from parts of honest proofs, with path elements, keys or values truncated, extended, swapped, re-split, or replaced by the queried key itself. The client-side verification of a map-server response gives the same guarantee for a domain name and its entry.",
 ["inputs"],"all proofs obtained from honest ones by a bounded number of structural edits, against every small tree content",
 "Tests only feed honest proofs and one or two bit flips; forgeries are a search over a structured space of inputs.",
 ["pkg/mapserver/trie/trie_merkle_proof.go","pkg/mapserver/prover/prover.go"],
 [("VerifyInclusion, VerifyNonInclusion, VerifyInclusionC, VerifyNonInclusionC","pkg/mapserver/trie/trie_merkle_proof.go"),("VerifyProofByDomain","pkg/mapserver/prover/prover.go")],
 (),["Verify* results"])

p("C04","A committed tree survives reopening and interrupted commits",
 "After a successful commit, a tree opened on the same store at the committed root has exactly the committed contents and can prove and update all of them, whatever history of updates and commits led there. If a commit fails or the process dies between any two of its storage operations, the version that was committed before stays fully readable unless the new version already is, no error of the storage layer is swallowed, and running the same update again on the previous version completes.",
 ["histories","crash_points","fault_sequences"],"all short update/commit/reopen histories, and every storage operation of every commit as a crash or error point",
 "Tests commit once or twice and reload from a healthy database; no test fails or cuts a commit between its storage operations, or commits a no-op change.",
 ["pkg/mapserver/trie/trie_cache.go","pkg/mapserver/trie/trie_tools.go","pkg/mapserver/trie/trie.go"],
 [("commitChangesToDB (write new nodes, then delete old ones)","pkg/mapserver/trie/trie_cache.go"),("addRemoveNode/storeNode/deleteOldNode","pkg/mapserver/trie/trie.go")],
 [("updatedNodes / removedNode","pending writes and deletions of the next commit","pkg/mapserver/trie/trie_cache.go")],["stored nodes, Root, Get after reopening"])

p("C05","Ingested certificates and policies appear exactly in their domains' entries",
 "After an update finishes, the entry of every domain lists exactly the certificates submitted as leaves that carry the name of that domain, together with all their chain ancestors, and exactly the policy objects for that domain, regardless of how the input was split into batches, repeated or reordered. Each stored certificate and policy keeps its own payload, its own parent and its own expiration time, whether or not other items of the same batch were already known.",
 ["histories","inputs"],"all short sequences of update batches drawn from a small universe of chains, names and policies, with repeats, in overwrite and keep-existing mode",
 "Tests insert one or two fixed batches into a fresh database; partially known batches and repeated chains are not explored.",
 ["pkg/mapserver/updater/updater.go","pkg/mapserver/updater/certs_policies_updater.go","pkg/db/mysql/certs.go","pkg/db/mysql/policies.go","pkg/util/certificate.go"],
 [("UpdateWithOverwrite, UpdateWithKeepExisting, CoalescePayloadsForDirtyDomains","pkg/mapserver/updater/updater.go")],
 [("dirty","domains whose entry must be recomputed","pkg/db/db.go")],["rows of certs, domain_certs, domain_payloads"])

p("C06","The tree always reflects the domain entries after an update cycle",
 "After an update cycle completes, the tree holds for every domain with a non-empty entry exactly the identifier of that entry and nothing for other domains, the stored root is the root of that tree, and no domain is left marked as changed. The same root results from one large cycle, from many small ones, and from a cycle re-run after a crash or storage error at any storage operation; certificates that expire are removed from entries and tree by the next cycle.",
 ["histories","crash_points","fault_sequences"],"all short histories of update cycles (add, repeat, expire, remove) and every storage operation of a cycle as a failure point followed by a re-run",
 "Tests run single cycles on a healthy database; failure between entry computation, tree commit, root save and dirty cleanup is never exercised.",
 ["pkg/mapserver/updater/updater.go","pkg/mapserver/trie/trie.go","pkg/db/mysql/dirty.go"],
 [("UpdateSMT, CoalescePayloadsForDirtyDomains, PruneCerts, CleanupDirty ordering","pkg/mapserver/updater/updater.go")],
 [("root","persisted tree root","pkg/db/mysql/smt.go")],["LoadRoot, tree contents, domain entries, dirty set"])

p("C07","Bulk ingestion stores every certificate exactly once, under any schedule",
 "When bulk ingestion is fed a stream of certificates and stopped, it terminates, and on success every certificate of the stream has been handed to storage exactly as given (identifier, payload, parent, expiration) and every pair of covered domain and certificate has been recorded, for any number of workers, any batch size and any interleaving. After success no temporary file is left behind. If a storage operation or temporary-file operation fails, ingestion terminates and reports that error.",
 ["schedules","fault_sequences","configurations"],"all interleavings up to a deviation bound of the ingestion workers for small streams, worker counts and batch sizes, with every storage call as a failure point",
 "Tests run one schedule with many certificates and check counts; interleavings, buffer reuse and failures are not controlled.",
 ["pkg/mapserver/updater/manager.go","pkg/mapserver/updater/certsWorker.go","pkg/mapserver/updater/domainWorker.go","pkg/mapserver/updater/csv.go","pkg/mapserver/updater/baseworker.go"],
 [("Manager pipeline of batchers, extractors, CSV creators and inserters","pkg/mapserver/updater/manager.go"),("ring buffers reused between stages","pkg/mapserver/updater/certsWorker.go")],
 (),["storage calls and contents of the files handed to storage"])

p("C08","Proof responses are self-consistent while the map is being updated",
 "Every proof response, also one produced while the map is being reloaded or updated, carries a tree-head signature that verifies for the root it carries, and its proof verifies under that root for the queried domain and the returned entry. A response never mixes two versions of the map, and a request never fails merely because a reload runs at the same time; one that overlaps with an update of the requested entry itself may be refused with an error.",
 ["schedules"],"all interleavings up to a deviation bound of proof requests with root reloads and map updates",
 "Tests query a map server that is not being updated, one request after the other.",
 ["pkg/mapserver/responder/responder.go","pkg/mapserver/trie/trie.go","pkg/mapserver/prover/prover.go"],
 [("GetProof, ReloadRootAndSignTreeHead","pkg/mapserver/responder/responder.go")],
 [("smt, signedTreeHead","tree and signature served to clients","pkg/mapserver/responder/responder.go")],["MapServerResponse"])

p("C09","Map answers match the stored entries and verify end to end",
 "For every stored map content and every queried name, the map server answers, over HTTP and gRPC alike, for the name itself and each of its parent domains: presence with exactly the stored entry (its identifiers taken as a set) when the domain has one, absence otherwise; all answers verify with the client-side prover under the signed root. An answer that was altered in any field (domain, entry, value, key, path, root, kind of proof) is rejected or leads to the same conclusion.",
 ["inputs","histories"],"all small map contents crossed with all names of a small domain hierarchy, and all single-field alterations of each answer",
 "Tests query a few fixed names over one content and never alter an answer.",
 ["pkg/mapserver/responder/responder.go","pkg/mapserver/prover/prover.go","pkg/mapserver/common/tools.go","pkg/domain/domain.go"],
 [("GetProof, getProof","pkg/mapserver/responder/responder.go"),("VerifyProofByDomain","pkg/mapserver/prover/prover.go")],
 (),["GetProof response, VerifyProofByDomain"])

p("C10","Each map-server update request gets its own result and never hangs",
 "Under any interleaving of concurrent update requests, map queries and shutdown, the map server runs one update cycle at a time, every request returns exactly once with the outcome of the cycle run for it (success only if that cycle fetched, computed the entries, updated the tree and published the new signed root), and an error of one cycle is never reported to another request. A request whose context ends while it waits returns; after the context of the server ends no request blocks or crashes the server.",
 ["schedules","fault_sequences"],"all interleavings up to a deviation bound of 2-3 requests with shutdown, with each step of an update cycle failing or not",
 "Tests start the server and request updates sequentially with a healthy back end.",
 ["pkg/mapserver/mapserver.go"],
 [("PruneAndUpdate, Update, update loop goroutine","pkg/mapserver/mapserver.go")],
 [("updateChan, updateErrChan","request and result channels","pkg/mapserver/mapserver.go")],["results of PruneAndUpdate/Update, signed tree head"])

p("C11","The MySQL store behaves like the relational model it documents",
 "Every storage operation returns and leaves behind exactly what a simple relational model of certificates, policies, domains, entries, dirty marks and tree nodes predicts, for any sequence of operations and for batches of any size including zero and those at or across internal chunk limits. In particular existence checks report exactly the stored identifiers, expired certificates are pruned and their domains marked, and dirty domains are partitioned so that every dirty domain is delivered exactly once. A failure of the server in the middle of an operation is reported and never yields a truncated result, and the operation can then be repeated.",
 ["histories","inputs"],"all operation sequences up to a bounded depth over a small universe, and batch sizes around each chunk limit",
 "Tests call each operation with a few fixed inputs; chunk boundaries, repeated identifiers and operation orders are not enumerated.",
 ["pkg/db/mysql/mysql.go","pkg/db/mysql/certs.go","pkg/db/mysql/policies.go","pkg/db/mysql/dirty.go","pkg/db/mysql/smt.go","tools/create_schema.sh"],
 [("SQL statements and stored procedures","pkg/db/mysql/*.go, tools/create_schema.sh")],
 (),["database contents and returned values"])

p("C12","CT log fetching delivers every entry once and resumes correctly",
 "For any requested range, batch size, server page size, log size and timing of the downloads, the fetcher delivers each unexpired certificate or precertificate of the range exactly once, with its chain and expiration, then reports the end (entries of a CT log in the order of the log, those of local files in any order, expired ones only counted). A download, file or decoding error is reported and never silently skips an entry, also not one of the last batch. Stopping ends the fetch, and a fetch started afterwards is not affected by the previous one. The size recorded for a log is never ahead of what was handed over for storage, so stopping or failing at any point and starting again misses no entry.",
 ["schedules","inputs","fault_sequences"],"all ranges, batch and page sizes up to small bounds, all positions of one download failure, and all interleavings up to a deviation bound of downloader and consumer",
 "Tests contact a live log or one fixed server and are not part of the reliable baseline; paging, short pages, stops and errors are not covered.",
 ["pkg/mapserver/logfetcher/httplogfetcher.go","pkg/mapserver/logfetcher/locallogfetcher.go","pkg/mapserver/updater/updater.go"],
 [("StartFetching, FetchNextBatch, getRawEntries, StopFetching","pkg/mapserver/logfetcher/httplogfetcher.go"),("UpdateNextBatch state saving","pkg/mapserver/updater/updater.go")],
 [("last CT log state","size up to which a log was processed","pkg/db/db.go")],["batches delivered, saved log state"])

p("C13","Policy-log verification accepts exactly the valid proofs and log roots",
 "A client with a trusted log root accepts a new log root only if a consistency proof shows that the new log is an append-only extension of the trusted one (any root extends the empty log), and accepts an entry only if one of the given proofs shows that it is included in the log of the trusted root at the claimed index. Entries are hashed as RFC 6962 prescribes. For every pair of log sizes and every entry the genuine proof is accepted, also when other proofs given with it are not valid; any alteration of the proof's hashes, the index, the entry or a root makes verification fail, and missing roots or proofs are reported as errors.",
 ["inputs","histories"],"all log sizes, entries and pairs of sizes up to a bound with all single alterations of each genuine proof, and all proofs built from the nodes of all logs of up to a few entries over a two-letter alphabet",
 "Tests verify one recorded inclusion proof and one recorded consistency proof.",
 ["pkg/logverifier/verifier.go"],
 [("VerifyInclusionByHash, VerifyInclusionWithPrevLogRoot, VerifyRoot","pkg/logverifier/verifier.go")],
 (),["verification result"])

p("C14","Pipelines deliver every item exactly once on every topology",
 "In an error-free run of any pipeline, every item produced by a source is processed exactly once by each stage it is routed through and reaches the sink exactly once (items produced by different processing steps of one stage stay in order along any single path), for fan-out, fan-in, distribution, criss-cross and joined topologies, sequential or concurrent inputs and outputs, single or multiple runs, and under any interleaving. The end-of-data action of each stage runs exactly once per run, after its last item, and outputs it produces are delivered too, as is everything a streaming stage emits, in however many and however empty portions. A stage with sequential inputs processes the items of its open inputs in turn, in the order of the inputs.",
 ["schedules","configurations"],"all interleavings up to a deviation bound for every small topology",
 "The pipeline tests run each topology under one arbitrary schedule and are excluded from the reliable baseline.",
 ["pkg/pipeline/pipeline.go","pkg/pipeline/stage.go","pkg/pipeline/source.go","pkg/pipeline/sink.go","pkg/pipeline/join.go"],
 [("Stage.resume, readIncoming*, sendOutputs*","pkg/pipeline/stage.go"),("link functions","pkg/pipeline/pipeline.go")],
 (),["items observed by stages and sink"])

p("C15","Pipelines propagate errors and always terminate",
 "Whenever a source, stage or sink reports an error, at any item, in any topology and under any interleaving, the whole pipeline stops, waiting for it returns an error that names every error reported by a stage in that run and never success, no goroutine of the run stays blocked, and no item is processed twice.",
 ["schedules","fault_sequences"],"every stage and item as the error position, one or two simultaneous errors, all interleavings up to a deviation bound",
 "Tests inject one error in one stage under one schedule and are excluded from the reliable baseline.",
 ["pkg/pipeline/stage.go","pkg/pipeline/pipeline.go","pkg/pipeline/source.go","pkg/pipeline/sink.go"],
 [("error channels, StopCh, breakPipeline","pkg/pipeline/stage.go")],
 (),["Wait result, goroutines left"])

p("C16","Pipelines can be stalled, resumed and re-run without losing items",
 "A pipeline that automatically pauses selected stages, runs an action and resumes loses and duplicates no item: items in flight are processed before the action runs, the action runs exactly at the requested points while the paused stages are idle, and processing then continues to the end. Each later run of a finished pipeline behaves like the first.",
 ["schedules"],"all interleavings up to a deviation bound for small pipelines with stall points at every item, and repeated runs",
 "Tests use one schedule and are excluded from the reliable baseline.",
 ["pkg/pipeline/stall_resume.go","pkg/pipeline/stage.go","pkg/pipeline/withOptions.go"],
 [("WithAutoResumeAtStage, WithStallStages","pkg/pipeline/stall_resume.go")],
 (),["order of items and actions, Wait result"])

p("C17","Caches of already seen identifiers never report an unseen identifier",
 "For any sequence or interleaving of additions and queries, a seen-identifier cache never reports an identifier that was not added to it before, reports every added identifier while it has not been evicted, and evicts only the identifier whose last addition is the oldest and only when its capacity is exceeded.",
 ["histories","schedules"],"all operation sequences up to a bounded depth over a small identifier set and capacities, and all interleavings up to a deviation bound of concurrent callers",
 "Tests insert a fixed list of identifiers sequentially.",
 ["pkg/cache/presence_cache.go","pkg/cache/lru_cache.go"],
 [("presence and LRU caches","pkg/cache")],
 (),["results of the cache operations"])

p("C18","The spin counter admits each numbered caller alone and in order of its number",
 "When callers numbered 0 to n-1 each enter once, then under any interleaving at most one of them is inside the protected section, they are admitted in the order of their numbers whatever the order in which they ask, every caller is eventually admitted once earlier ones have left, and waiting for all of them returns only after the last one has left.",
 ["schedules"],"all interleavings up to a deviation bound of 2-3 callers entering the lock repeatedly",
 "Tests run a few goroutines once and check a counter.",
 ["pkg/sync/spin.go"],[("SpinLock Lock/Unlock","pkg/sync/spin.go")],(),["critical section entries"])

p("C19","The ingestion journal never skips an unfinished file or CT index",
 "For any history of completed batches, restarts and appearing or disappearing input files, the files the journal reports as still to do are exactly the present files not recorded as ingested for this log directory, in index order, where the present files are the *.gz files of every `bundled` directory below the ingest directory and, if asked for, the *.csv files beside one; a directory that cannot be read is an error. The recorded completed ranges are exactly the union of the ranges of the ingested files. The journal file on disk is at any moment, also after a crash or a failed write, a complete earlier or the new state; a damaged journal file is reported and never taken for an empty one. Concurrent batches lose no progress, and a restart with another configuration never discards recorded progress.",
 ["histories","inputs","crash_points","fault_sequences","schedules"],"all histories up to a bounded depth of commits, restarts and directory changes over small sets of file ranges including gaps and overlaps, every file operation of a write as a failure or crash point with lost unsynced data, all truncations of a journal file, and all interleavings of two committing goroutines",
 "Tests check a few fixed directory layouts and commit orders.",
 ["cmd/ingest/journal/journal.go","cmd/ingest/journal/list_files.go"],
 [("Journal, interval merging, file listing","cmd/ingest/journal")],
 [("journal file","persisted progress","cmd/ingest/journal/journal.go")],["pending files, journal contents"])

p("C20","Interrupted ingestion resumes without losing data or over-claiming",
 "If ingestion stops, fails or crashes at any step, the journal on disk claims no more than what was durably stored, and a re-run (assuming that the tree alone is only asked for if the entries are up to date) processes every remaining file, then computes the entries and the tree, in this order and as far as the chosen strategy asks for, also for files ingested by earlier runs. The CT log size recorded at the end is exactly the contiguous prefix of the log, from index 0, that was ingested, and nothing is recorded if there is none. Errors of any phase are reported and stop later phases; a termination signal stops the run and is reported, a second one ends the process at once.",
 ["crash_points","fault_sequences","histories"],"every step of small sequences of ingestion runs as a crash, error or cancellation point, followed by re-runs, for all small sets of file ranges and strategies, and every file operation of a journal write",
 "Tests run the phases once with stubs; no crash is injected inside or between phases.",
 ["cmd/ingest/run.go","cmd/ingest/journal/journal.go","cmd/ingest/main.go"],
 [("runIngest phase ordering, completedCTLogSize","cmd/ingest/run.go"),("atomic journal write (temp file, sync, rename)","cmd/ingest/journal/journal.go")],
 (),["journal file, calls of the phases"])

p("C21","Certificate CSV rows are parsed and split exactly",
 "For every row of a certificate file, the parser yields the same leaf, chain and expiration columns as a standard CSV reader would, or reports an error exactly when the row is malformed (broken quotes, too few columns, no certificate or no expiration). Splitting a file into rows yields every row once, in order, with its number, regardless of where the reads of the underlying stream end, of the length of the rows and of whether the last row ends with a newline. A failure to open, read or close the file, including truncated or corrupted compressed files, is always reported together with the name of the file; the rows before it are delivered. Missing files are skipped only if asked for.",
 ["inputs","fault_sequences"],"all short rows over an alphabet of delimiters, quotes, digits and payload bytes, all read-boundary splits and failure positions of small files, every truncation and bit flip of small compressed files",
 "Tests parse a few typical rows.",
 ["cmd/ingest/fastcsv/fastcsv.go","cmd/ingest/csvSplitWorker.go"],
 [("ParseLine, splitting worker","cmd/ingest")],(),["parsed fields, rows, errors"])

p("C22","Ingestion turns every CSV row into its certificates under any schedule",
 "For any set of input files, worker counts and interleaving, when the ingestion processor finishes successfully, storage holds exactly the leaf and every certificate of the chain of each row that is not expired, with their expirations and parents, and the names of each leaf are linked to it and marked dirty, whether or not a certificate also appears as a parent or in another chain. It always finishes; a broken row, a failing file, a storage error or a cancellation makes it finish with an error (naming the injected one) and never with success.",
 ["schedules","fault_sequences","inputs"],"all interleavings up to a deviation bound for small file sets, with each row or storage call failing or not",
 "Tests process one file under one schedule.",
 ["cmd/ingest/processor.go","cmd/ingest/toChainWorker.go","cmd/ingest/chainToCertWorker.go","cmd/ingest/csvSplitWorker.go","pkg/util/certificate.go"],
 [("Processor pipeline","cmd/ingest/processor.go")],(),["storage contents, Wait result"])

p("C23","Policy signatures verify exactly for the signed content and key",
 "A signature created by an owner or issuer on a policy certificate request or policy certificate verifies with the corresponding certificate; it fails after any change to any covered field, with any other key, or when moved to another object; the issuer's signature covers the owner's signature. Identifiers used to link signers depend on exactly the documented content (the issuer and owner hashes, the hash over the immutable fields). Signed log timestamps over a certificate verify exactly for that certificate and that log. Verifying never modifies the verified objects, whether it succeeds or fails.",
 ["inputs"],"every object type crossed with every single-field change and every key of a small set, and all orders of signing steps",
 "Tests sign and verify one object and change one or two fields.",
 ["pkg/common/crypto/crypto.go","pkg/common/policies.go"],
 [("SignAsOwner, SignPolicyCertificateAsIssuer, Verify*","pkg/common/crypto/crypto.go")],(),["verification result, verified objects"])

p("C24","Policy certificates are accepted only within their issuers' constraints",
 "Verifying the issuer constraints of a policy certificate succeeds exactly if its issuer may issue certificates, the validity period of the certificate lies within the issuer's, and its domain is the issuer's domain or below it, label by label (an issuer without domain is unrestricted).",
 ["inputs"],"all combinations of issuing permission, validity relation and domain relation over a small hierarchy",
 "Tests check one accepted and one rejected pair.",
 ["pkg/common/crypto/crypto.go"],
 [("VerifyIssuerConstraints","pkg/common/crypto/crypto.go")],(),["verification result"])

p("C25","The policy CA issues only properly authorized policy certificates",
 "For any sequence of requests: a request that names as its owner a certificate issued by this policy CA is signed only if its owner signature verifies with that certificate, and a malformed owner hash is refused; requests naming no owner or an unknown one are signed (clients apply the cool-off period). The certificate that is issued has exactly the requested fields, verifies under the CA's own certificate, carries one valid timestamp of every configured log and was handed to each of them. Serial numbers given out by the CA are distinct and increasing. A request that is rejected, or that a log fails to accept, leaves the CA's database unchanged.",
 ["histories","inputs","fault_sequences"],"all request histories up to a bounded depth over a small set of owners, domains, forged or stale signatures and failing logs",
 "Tests issue one chain of certificates with correct requests.",
 ["pkg/pca/pca.go","pkg/domainowner/domainowner.go","pkg/common/crypto/crypto.go"],
 [("NewPolicyCertificateSigningRequest, SignAndLogRequest","pkg/pca/pca.go")],
 [("dbBackend, SerialNumber","issued certificates and last serial number","pkg/pca/pca.go")],["issued certificates, error results, database"])

p("C26","Policy objects survive serialization unchanged",
 "Every supported policy object, alone or in a list, decodes from its own encoding to an equal object (including its type, times, signatures and nested objects), encoding the decoded object gives the same bytes, and different objects never compare equal or share an encoding. A decoded object keeps the encoding it was decoded from whatever happens to the caller's buffer. Malformed or unknown encodings and nil objects are reported as errors and never crash or silently decode as something else.",
 ["inputs"],"every object type with every field empty, minimal or typical, nested lists of them, and single-edit corruptions of each encoding",
 "Tests round-trip a few randomly filled objects and compare with the equality under test.",
 ["pkg/common/json.go","pkg/common/policies.go"],
 [("ToJSON, FromJSON, Equal","pkg/common")],(),["decoded objects"])

p("C27","Policy attribute decisions follow the allowed and excluded names",
 "For every combination of allowed, disallowed and excluded subdomain lists, every policy domain and every queried name (each with or without trailing dot), the decision is: not applicable exactly if the name is not strictly below the policy's domain, label by label; otherwise decided by the label directly below the policy's domain, where an entry with exactly that label decides before the wildcard entry, and names without any entry are allowed. Validating the attributes reports an error exactly if a certificate authority or a label is listed more than once, and names the number of duplicates.",
 ["inputs"],"all triples of small allowed/disallowed/excluded lists with wildcards over a small name hierarchy, crossed with all names and policy domains, and all short lists of certificate authorities",
 "Tests check a few lists.",
 ["pkg/common/policies.go"],[("CheckDomainValidity, ValidateAttributes","pkg/common/policies.go")],(),["decision and messages"])

p("C28","Domain names are validated and their covering domains computed exactly",
 "A name is accepted exactly if it has at most 255 bytes, is not itself an ICANN public suffix, and consists of labels of 1 to 63 letters, digits and inner hyphens, where only the first label of several may be the wildcard. Parsing drops one leading wildcard and then one leading www label (unless www is the registered name itself), and yields exactly the registrable domain followed by each longer name up to the name itself, in this order; for names below no ICANN suffix exactly the name itself; and an error when nothing above a public suffix remains. The names of a certificate are exactly its subject's common name and its alternative names, each once. The domains affected by a list of names are its valid names without prefixes, each once, or for more than four names, per registrable domain, their longest common ancestor.",
 ["inputs"],"all names over a small alphabet of labels up to a bounded number of labels, including public suffixes of one and two labels, wildcards, www and labels of maximal length, and all small name lists",
 "Tests check a list of examples.",
 ["pkg/domain/domain.go","pkg/util/domain.go"],
 [("IsValidDomain, ParseDomainName, SplitE2LD, ExtractAffectedDomains","pkg/domain/domain.go"),("ExtractCertDomains","pkg/util/domain.go")],(),["parse results"])

p("C29","Slice and sorting utilities keep exactly the promised elements",
 "Deduplication leaves exactly one element for each distinct value in the master slice and the corresponding elements in every accompanying slice (in no particular order), whatever the given storage contained before. Removing elements by index leaves exactly the other elements, once each, in any index order; resizing keeps the first elements and fills up with the given one; sorting arranges the elements of the given slice in ascending order whatever pivots are chosen. Combining errors returns nil exactly if all are nil, and otherwise an error that wraps exactly the given ones in order, combined ones replaced by their parts and those with the same message listed once. Conversions between untyped and typed slices keep the elements that have the type, in order, and return the others separately; integer logarithm and power are exact.",
 ["inputs"],"all slices up to a bounded length over a small alphabet with all patterns of duplicates, all index sets in all orders, all pivot choices",
 "Tests use a few fixed slices and random pivots.",
 ["pkg/util/deduplicateSlice.go","pkg/util/slice.go","pkg/util/sort.go","pkg/util/errors.go","pkg/util/types.go","pkg/util/math.go"],[("DeduplicateSlice, RemoveElementsFromSlice, Qsort, ErrorsCoalesce, ToTypedSlice and helpers","pkg/util")],(),["returned and passed slices"])

p("C30","Certificate streams, chains, keys and files are read completely and exactly",
 "Reading a stream of PEM blocks yields exactly its certificates, in order and unchanged, however many are asked for at a time, wherever the reads of the underlying source end, however large the certificates are and whatever other blocks or text lie in between; an undecodable certificate or a failing source is reported, and writing then reading certificates returns them. Unfolding certificates with their chains yields every leaf first, with its names, followed by every ancestor without names, each with its own identifier and parent; ancestors left out because they are known are skipped, the others keep their parents. Certificate rows, lists of policies, RSA keys and policy certificates are read exactly as written, malformed or truncated ones (including compressed files) are reported as errors and never crash. The first index and the number of certificates of a file follow from its name exactly, and other names are refused.",
 ["inputs","fault_sequences"],"all short streams over several kinds of blocks with all batches and read boundaries, all lists of chains over a small universe with all sets of known ancestors, every truncation of keys and compressed files, all file names of an enumeration",
 "Tests read a few fixed files with one buffer size.",
 ["pkg/util/certReader.go","pkg/util/certWriter.go","pkg/util/certificate.go","pkg/util/io.go","pkg/util/pem.go","pkg/util/csv_files.go"],
 [("CertReader.Read, UnfoldCerts, UnfoldCert, LoadCertsAndChainsFromCSV, LoadPoliciesFromRaw, RSAKeyFromPEM, filenameToIndices","pkg/util")],(),["certificates, identifiers, errors"])

p("C31","Update times and durations are computed exactly",
 "For every current time, time zone of the machine and configured time of day (UTC), the next update time is the first instant with that time of day that is not in the past. A periodic function runs first at the requested time (at once if it is past), then once per period, a late run at once after the previous one, never overlapping and never before its time; it stops when its context ends, also before the first run, and leaves nothing behind. A duration text is a whole number with one unit from years to nanoseconds and means exactly their product; anything else, including values out of range, is rejected. Formatting and parsing durations and times of day are inverse.",
 ["inputs","schedules"],"all times of day crossed with clock positions, days and zones, all short duration texts over the unit alphabet, and all orders of tick, run and cancellation",
 "Tests check a few values in the zone of the machine and run with the real clock.",
 ["pkg/util/time_wrap.go","pkg/util/time.go","pkg/util/ticker.go","pkg/util/duration.go","pkg/util/duration_wrap.go"],
 [("NextTimeOfDay, RunWhen, ParseDuration, FmtDuration","pkg/util")],(),["computed times, runs"])

p("C32","The policy log client adds every entry once and returns only proofs that verify",
 "For any entries, number of workers, schedule and failures of the log server, adding entries sends each of them exactly once, ends, and reports exactly those the log refused, each with its error. Fetching proofs returns for each entry, under its own name, inclusion proofs that verify for that entry under the log root returned with them, also while the log grows, or reports the entry as failed with its error; an entry the log does not know yet is retried a bounded number of times. Queueing the RPC files of the exchange folder adds each RPC once, waits for the log to integrate those it did not have already, also when other clients add entries, returns their proofs and reports every failure; RPC files are removed only when all of them were read. No answer of the server makes the client hang or crash, and when the context ends every call returns.",
 ["schedules","inputs","fault_sequences"],"all interleavings up to a deviation bound of leader and 1-3 workers with up to 4 entries, and all choices of the server's answers from a list of faults",
 "No test runs the policy log client: it needs a log server, and only a manual integration program uses it.",
 ["pkg/policylog/client/concurrentfunc.go","pkg/policylog/client/logclient.go"],
 [("AddLeaves, FetchInclusions and their workers","pkg/policylog/client/concurrentfunc.go"),("QueueRPCs, UpdateTreeSize, GetConsistencyProof","pkg/policylog/client/logclient.go")],
 [("currentTreeSize","size of the log as known by the client","pkg/policylog/client/logclient.go")],["requests sent to the log server, results returned, RPC files"])


p("C33","The map server answers while it serves, and stops cleanly when asked",
 "While it listens (HTTP, HTTPS or gRPC) the map server answers every request with the stored content and no other. When its shutdown is requested, its context ends or the process gets SIGTERM or SIGINT, it accepts no further request, finishes those in progress, releases its port and then returns, without an error and within a bounded time, whatever happened before: starts that failed because the port is taken, earlier shutdowns, requests held up in the storage, failures. A port that cannot be used is reported as an error. The process ends in order at whatever step of its start, of an update or of a request the signal arrives, and what it had stored by then is what a completed or a repeated update needs. Inserting policies from a file stores all of them and the matching entries and signed root, or fails with an error, whichever step of the storage fails.",
 ["histories","fault_sequences"],"all histories of start, start on a taken port, request, request in progress, release, shutdown and cancellation up to a length; a signal and a storage failure at every storage step of the command",
 "Tests start a server once, query it, and stop it; no test sends it a signal, and none runs the command.",
 ["cmd/mapserver/main.go","pkg/mapserver/mapserver.go","pkg/grpc/grpcserver/grpcserver.go","pkg/util/signal_handler.go"],
 [("Listen, ListenWithoutTLS, Shutdown","pkg/mapserver/mapserver.go"),("StartWork","pkg/grpc/grpcserver/grpcserver.go"),("mainFunction, insertPolicyFromFile, runWithConfig","cmd/mapserver/main.go")],
 (),["answers over the network, returned errors, exit status, port, stored tables"])

p("C34","Termination signals and shutdown are honoured exactly, under any schedule",
 "A context made for a set of signals is cancelled exactly when one of these signals arrives or its parent ends, under every schedule; a process that has not ended within the given time after the cancellation is ended with a panic, not earlier, and an orderly end is never disturbed by it. A function registered for signals runs for these signals only, one run at a time, never more often than signals arrived, after the last one arrived at least once more, and no longer once its context ended, leaving no goroutine behind. A policy log server is asked to shut down once, when its context ends; the call returns after the server has ended, with the error of the server. Every registered shutdown function runs exactly once, whichever others fail, and all errors are returned. The ingest command, on the first SIGINT or SIGTERM, stops the profiles, writes its diagnostics and then cancels its work, on the second one exits with the code of the signal; SIGUSR1 only writes diagnostics, each into a directory of its own. Whichever parts of the diagnostics fail, the others are written and each failure is reported.",
 ["schedules","fault_sequences"],"all interleavings up to a deviation bound of signals, cancellation, work and shutdown; all sequences of signals up to a length with all subsets of failing parts of the diagnostics",
 "The order of signal, cancellation and end of the work is up to the scheduler; tests cover two signal sequences and one failing part of the diagnostics.",
 ["pkg/util/signal_handler.go","pkg/util/atexit.go","pkg/policylog/server/util/serverutil.go","cmd/ingest/main.go"],
 [("ContextWithCancelOnSignal, RunOnSignal","pkg/util/signal_handler.go"),("srvRun","pkg/policylog/server/util/serverutil.go"),("startIngestSignalHandler, createDiagnosticsBundle","cmd/ingest/main.go")],
 (),["state of the context, functions run, returned errors, goroutines left, files of the diagnostics"])


p("C35","Configurations are read back as written and followed exactly",
 "Writing any configuration (map server, responder, PCA, policy log server, signer, client and administration) to a file and reading it yields the same configuration, whatever the file contained before; a missing, truncated, extended or mistyped file is reported as an error and never read as another configuration. The database is reached exactly as configured, by the user, password, host, port or socket, database name and session settings that result from the parts of the configuration in the order given and from the environment, each time the configuration is used and after it went through a file. A map server fetches exactly the configured logs, each from its configured source, with the configured key and certificate, and is refused if these do not belong together or a log is listed twice.",
 ["inputs","histories"],"all pairs of fields over lists of values, all truncations, all orders of the parts of a connection with all environments, all small map server configurations",
 "Tests read two sample files and connect with one configuration.",
 ["pkg/mapserver/config/config.go","pkg/db/conf.go","pkg/db/mysql/conf.go","pkg/db/mysql/init.go","pkg/mapserver/mapserver.go","pkg/mapserver/updater/updater.go","pkg/pca/config.go","pkg/policylog/client/logconfig.go","pkg/policylog/client/adminconfig.go","pkg/policylog/server/logserver/config.go","pkg/policylog/server/logsigner/config.go","cmd/mapserver/main.go"],
 [("Connect, parseDSN","pkg/db/mysql/init.go"),("WithEnvironment, WithDefaults","pkg/db/mysql/conf.go"),("ReadConfigFromFile, WriteConfigurationToFile","pkg/mapserver/config/config.go"),("NewMapServer, NewMapUpdater","pkg/mapserver")],
 (),["read configurations, errors, sessions at the database server, fetchers"])


if __name__=="__main__":
    import sys
    with open("/verif/properties.jsonl","w") as f:
        for x in P:
            x["statement"]=x["statement"].strip()
            assert len(x["title"])<=80,x["id"]
            f.write(json.dumps(x)+"\n")
    print(len(P))
