#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (edit here, then run)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": None}})

# ---------------------------------------------------------------- balances
p("B01", "Every money movement is double-entry",
  "Every transaction that takes effect adds one and the same strictly positive amount to the source's debits and to the destination's credits, on the settled side or on the held (inflight) side alike. Committing a hold moves exactly the committed amount from held to settled on both legs, and voiding one removes exactly the voided amount from the hold on both legs. No operation changes one leg without the other.",
  ["inputs", "histories"], "all amounts, precisions, balance states and transaction kinds (settled, inflight, commit, void)",
  "Unit tests compare a few concrete amounts per operation; they cannot show that the amount added on one leg is the same expression as on the other on every path.",
  ["model/model.go", "transaction_execution.go", "transaction_dryrun.go"],
  [("UpdateBalances / addDebit / addCredit", "model/model.go"), ("CommitInflight*/RollbackInflight*", "model/model.go"), ("applyTransactionToBalances", "transaction_execution.go")],
  [("credit/debit/inflight totals", "per-balance monetary totals", "model.Balance")], ["GET /balances/:id"])
p("B02", "Stored balance always equals credits minus debits",
  "Whenever any credit, debit or held total of a balance changes, the net settled balance equals total credits minus total debits and the net held balance equals held credits minus held debits before the operation is over. Those totals change nowhere else: no other part of the ledger assigns or edits them.",
  ["inputs", "histories"], "every operation that changes a balance total, and all code that can reach a balance",
  "Tests assert on the fields they expect to change; they cannot show that nothing else in the program writes a total, or that every mutation path re-derives the net figure.",
  ["model/model.go", "model/clone.go", "database/balance.go"],
  [("computeBalance after each mutator", "model/model.go"), ("Clone deep copies", "model/clone.go")],
  [("Balance, InflightBalance", "derived net figures", "model.Balance")], ["GET /balances/:id"])
p("B03", "No overdraft without permission",
  "A transaction takes effect only if the source's available funds (settled balance minus held debits, minus queued debits when those are counted) cover the full amount, or overdraft was explicitly allowed without limit, or the resulting available balance stays within the positive overdraft limit given. This gate is passed on every path that debits a source, before anything is changed, and amounts that are zero or negative are refused.",
  ["inputs", "histories"], "all balances, amounts, overdraft settings",
  "Tests sample a handful of balances around the limit; the guarantee quantifies over all amounts and every path to a debit.",
  ["model/model.go", "transaction_execution.go", "transaction_dryrun.go"],
  [("canProcessTransaction", "model/model.go"), ("validate", "model/model.go")],
  [("AllowOverdraft, OverdraftLimit", "permission on the transaction", "model.Transaction")], ["POST /transactions"])
p("B04", "Monetary amounts are never truncated or silently zeroed",
  "Amounts and balance totals of any size survive every step of the ledger (arithmetic, storage, retrieval) exactly: they are never narrowed to a fixed-width number or to floating point once in minor units, and they are stored in columns without a size limit. A stored or supplied figure that cannot be parsed makes the operation fail; it is never replaced by zero.",
  ["inputs"], "all integer amounts, including beyond 64 bits",
  "Tests use small amounts; narrowing conversions only show beyond 2^53 or 2^63.",
  ["model/model.go", "model/transaction.go", "database/balance.go", "database/transaction_queries.go", "sql/"],
  [("parseBigInt", "database"), ("NUMERIC columns", "sql/")],
  [("precise_amount", "amount in minor units", "blnk.transactions")], ["GET /transactions/:id", "GET /balances/:id"])
p("B05", "A hold can never be over-released",
  "Neither committing nor voiding a hold can take more out of a balance's held debits or held credits than is there; an attempt to do so is refused and leaves that balance unchanged.",
  ["inputs", "histories"], "all held amounts and commit or void amounts",
  "Tests check single over-commit values; the guarantee is that the sufficiency check dominates the subtraction, on both sides, for every amount.",
  ["model/model.go"], [("checkSufficientInflight*", "model/model.go")],
  [("InflightDebitBalance, InflightCreditBalance", "held totals", "model.Balance")], ["PUT /transactions/inflight/:txID"])

# ---------------------------------------------------------------- transactions
p("T01", "A transaction and its balance changes are persisted atomically",
  "A transaction record, the new totals of the balances it moves and the lineage work it creates become durable together in one database transaction or not at all, whatever fails and wherever the process dies. Success is reported only after the database confirmed the commit, and after any failed step nothing of the attempt is kept.",
  ["crash_points", "fault_sequences"], "every statement boundary inside every database transaction of the ledger",
  "Tests run with mocks that fail at chosen statements; they cannot enumerate every early return, or notice a statement that bypasses the transaction handle.",
  ["database/transaction.go", "database/transaction_coalescing.go", "database/transaction_lineage.go", "database/balance.go", "database/reconciliation.go", "database/chain.go"],
  [("BeginTx / deferred Rollback / Commit", "database/"), ("RecordTransactionWithBalancesAndOutbox", "database/transaction_lineage.go")],
  [], ["POST /transactions"])
p("T02", "Concurrent balance updates never overwrite each other",
  "A write of a balance's totals succeeds only if the stored version is still the version that was read; it raises the version by one, and when another writer got there first the whole attempt fails with a conflict instead of overwriting. No statement of the ledger writes monetary totals of a balance without that comparison.",
  ["schedules"], "all interleavings of writers on one balance, across processes",
  "A lost update needs a second writer between read and write; tests run single-writer against mocks that return canned row counts.",
  ["database/balance.go", "database/transaction_coalescing.go"],
  [("version predicate and RowsAffected check", "database/balance.go")],
  [("version", "optimistic lock counter", "blnk.balances.version")], ["concurrent POST /transactions"])
p("T03", "Balances are only changed while their locks are held",
  "Every transaction applied to balances is computed and persisted while distributed locks on all balances it involves are held, and the totals it starts from are read after those locks were taken. The locks are released on every way out, success or failure.",
  ["schedules", "crash_points"], "all interleavings of workers and API servers",
  "Tests with an in-memory lock server run one transaction at a time; they cannot show that every path to persistence is inside the lock.",
  ["transaction_execution.go", "transaction_coalescing.go", "transaction_inflight.go", "transaction_refunds.go", "lineage_debit.go"],
  [("acquireLock / MultiLocker", "transaction_execution.go, internal/lock"), ("executeWithLock", "transaction_execution.go")],
  [("redis lock keys", "one key per balance", "redis")], ["concurrent POST /transactions"])
p("T04", "Locks are exclusive, owner-checked, ordered and never leaked",
  "A lock is taken only if no one holds it and always with an expiry, and only its owner's token can release or extend it. Locks over several balances are taken in one global order without duplicates, and if any of them cannot be taken those already taken are released.",
  ["schedules", "fault_sequences"], "all interleavings of lock requests and expiries",
  "Deadlock and foreign release depend on interleavings that tests with sequential calls never produce.",
  ["internal/lock/lock.go", "internal/lock/multi_locker.go"],
  [("SetNX with TTL, Lua compare-and-delete", "internal/lock"), ("sorted, de-duplicated keys", "internal/lock")],
  [("lock value", "random owner token", "redis")], [])
p("T05", "A transaction reference is recorded at most once",
  "No two transactions with the same reference are ever recorded: the database itself enforces uniqueness, every path that records a transaction on behalf of a caller refuses a reference already used, and a failed lookup is never taken for 'not used'.",
  ["schedules", "histories", "fault_sequences"], "all orders of submission, retries, crashes between attempts, and database failures during the lookup",
  "Tests cover sequential duplicates with mocks; the guarantee includes races, where only the index decides, and lookup failures.",
  ["transaction_execution.go", "database/transaction_queries.go", "sql/"],
  [("validateTxn", "transaction_execution.go"), ("idx_transactions_reference_unique", "sql/")],
  [("reference", "client idempotency key", "blnk.transactions.reference")], ["POST /transactions"])
p("T06", "An inflight hold is settled at most once and never beyond its amount",
  "Commits and voids of one inflight transaction are serialised by a lock on that transaction; under it the remaining amount is recomputed, and a commit that is negative, exceeds the original or exceeds what remains is refused, as is any action on a hold that was voided, fully committed or is not a hold. Queued commit or void requests are validated the same way when they are finally executed.",
  ["schedules", "histories", "inputs"], "all sequences and interleavings of commit and void requests on one hold",
  "Tests exercise short sequences on mocks; the guarantee covers every interleaving and every entry point (API, bulk, queue, expiry).",
  ["transaction_inflight.go", "cmd/workers.go"],
  [("inflight-commit lock", "transaction_inflight.go"), ("fetchAndValidateInflightTransaction, validateRequestedAmount", "transaction_inflight.go")],
  [], ["PUT /transactions/inflight/:txID"])
p("T07", "A transaction is refunded at most once and in reverse",
  "A refund is only created under a lock on the original, after checking that the original is in a refundable state and has not been refunded yet; a failed check is never taken for 'not refunded'. The refund moves the same amount back with source and destination exchanged, linked to the original under a reference derived from it.",
  ["schedules", "histories"], "all sequences and interleavings of refund requests",
  "Tests do one refund at a time against mocks.",
  ["transaction_refunds.go", "database/transaction_refunds.go"],
  [("refund lock", "transaction_refunds.go"), ("IsTransactionRefunded", "database/transaction_refunds.go")], [], ["POST /refund-transaction/:id"])
p("T08", "An atomic bulk request leaves no partial effect unreported",
  "When any transaction of an atomic bulk request fails, the ones already recorded are undone (holds voided, settled ones refunded) before the request is reported as failed; the failure of the undo itself is reported too. A bulk request that had a failure is never reported as successful.",
  ["fault_sequences", "inputs"], "every position at which a bulk can fail, synchronous and asynchronous",
  "Tests fail one chosen position of a small batch.",
  ["transaction_bulk.go"], [("processTransactions, rollback", "transaction_bulk.go")], [], ["POST /transactions/bulk"])
p("T09", "Recorded transactions follow the status lifecycle",
  "The status under which a transaction is recorded is one of QUEUED, APPLIED, SCHEDULED, INFLIGHT, VOID, COMMIT or REJECTED. A record that changes balances is recorded as APPLIED, INFLIGHT or VOID according to the kind of movement, a rejected one as REJECTED without any balance change, and every record carries an identity and hash assigned before it is stored.",
  ["histories", "inputs"], "all transaction kinds and entry points",
  "Tests look at the status of a few flows; they cannot show no other status is ever written.",
  ["transaction.go", "transaction_execution.go", "transaction_rejection.go", "transaction_inflight.go"],
  [("finalize status", "transaction_execution.go"), ("RejectTransaction", "transaction_rejection.go")],
  [("status", "lifecycle state", "blnk.transactions.status")], ["GET /transactions/:id"])
p("T10", "A queued transaction is executed exactly once or rejected with a record",
  "A queued transaction is applied under a reference derived from its own, so repeating the task, requeueing or recovering it can never apply it twice; a repeated one is acknowledged, a transient failure is retried, and a transaction that can never apply is recorded as rejected. An error while queueing or executing is never swallowed.",
  ["schedules", "crash_points", "histories"], "all redeliveries, worker crashes and recovery runs",
  "Tests do single deliveries; duplicates and crashes between steps are not reachable with mocks.",
  ["cmd/workers.go", "queue.go", "queue_recovery.go", "transaction_queue.go", "database/transaction_recovery.go"],
  [("derived '_q' reference", "queue_recovery.go, transaction_queue.go"), ("worker error classification", "cmd/workers.go")], [], ["GET /transactions/:id"])
p("T11", "Recovery only touches stuck transactions",
  "Automatic recovery re-queues only transactions that are still queued, are older than a minimum age, have no recorded outcome yet and have not used up their recovery attempts, and each attempt is counted.",
  ["histories", "schedules", "configurations"], "all thresholds and queue states",
  "Tests use canned rows; whether the selection excludes finished work is decided by the query itself.",
  ["queue_recovery.go", "database/transaction_recovery.go"], [("GetStuckQueuedTransactions", "database/transaction_recovery.go")], [], ["POST /transactions/recover"])
p("T12", "Recorded transactions are immutable",
  "Once recorded, a transaction's parties, amount, currency, precision, reference, status, hash, description, creation and schedule times can never be changed: the database refuses it. The ledger itself only ever amends a transaction's metadata and its hash-chain position and never deletes one.",
  ["histories", "programs"], "all statements the ledger can send and all direct updates to the table",
  "Tests never attempt every statement; immutability is a statement about all code and the final schema.",
  ["sql/", "database/"], [("immutability trigger", "sql/1781162328.sql"), ("UPDATE statements", "database/")],
  [("transactions row", "ledger record", "blnk.transactions")], [])
p("T13", "A dry run changes nothing",
  "Previewing a transaction, a bulk request or a commit or void never writes to the database, never queues work, never sends webhooks, and evaluates on copies of the balances, whatever the request.",
  ["inputs"], "all preview requests",
  "Tests check a few previews against mocks that would fail on an unexpected call; the guarantee covers every path reachable from a preview.",
  ["transaction_dryrun.go", "transaction_dryrun_bulk.go", "transaction_dryrun_inflight.go", "api/transactions.go"],
  [("Preview* functions", "transaction_dryrun*.go")], [], ["POST /transactions?dry_run"])

# ---------------------------------------------------------------- hash chain
p("C01", "The hash chain is sealed serially and atomically",
  "Only one sealer at a time extends the chain: it locks the chain head, links each unsealed transaction in order to the hash before it with the next sequence number, stores links and new head in the same database transaction, and on any failure leaves chain and head as they were.",
  ["schedules", "crash_points"], "all interleavings of sealers and crash points",
  "Tests run one sealer against mocks.",
  ["database/chain.go", "chain_worker.go"], [("ChainPendingTransactions", "database/chain.go")],
  [("chain_state", "head of the chain", "blnk.chain_state")], ["blnk verify-chain"])
p("C02", "Chain verification detects every alteration",
  "Verification recomputes every sealed transaction's hash from all the fields it covers and reports failure if any hash, link or sequence number does not match, if a sealed transaction is missing anywhere including at the end, or if it could not read everything; it reports success only otherwise.",
  ["histories", "inputs"], "all single and multiple alterations of sealed rows",
  "Tests alter a few rows; detection of any alteration depends on every field being hashed and every mismatch branch being present.",
  ["model/chain.go", "chain_worker.go", "cmd/verify_chain.go", "database/chain.go"],
  [("ComputeChainHash", "model/chain.go"), ("VerifyChain", "chain_worker.go")], [], ["blnk verify-chain"])

# ---------------------------------------------------------------- lineage
p("L01", "Lineage work is never lost",
  "Lineage work is recorded with the transaction that caused it, is claimed by one worker at a time, is marked done only after processing it succeeded, and is otherwise kept for retry with its failure counted until a bounded number of attempts.",
  ["crash_points", "schedules", "fault_sequences"], "all failures and crashes while processing lineage",
  "Tests process single entries with mocks.",
  ["lineage_outbox.go", "lineage_worker.go", "database/lineage.go", "lineage_processing.go"],
  [("claim with FOR UPDATE SKIP LOCKED", "database/lineage.go"), ("MarkOutboxCompleted / MarkOutboxFailed", "lineage_worker.go")],
  [("lineage_outbox", "pending work", "blnk.lineage_outbox")], [])
p("L02", "Fund-lineage legs are serialised and paired",
  "Allocation of spent funds to their providers is computed and booked while locks on the balances concerned are held, and allocates to each provider no more than its shadow balance holds and in total no more than the amount spent; each released leg is booked with a reference derived from the originating transaction and provider.",
  ["schedules", "inputs"], "all provider mixes and interleavings of debits",
  "Tests cover small deterministic provider sets.",
  ["lineage_debit.go", "lineage_allocation.go", "lineage_credit.go"],
  [("acquireLineageLocks", "lineage_debit.go"), ("sequentialAllocation / proportionalAllocation", "lineage_allocation.go")], [], ["GET /balances/:id/lineage"])

# ---------------------------------------------------------------- reconciliation
p("R01", "Reconciliation only sees the data it was asked to reconcile",
  "A reconciliation run compares exactly the external records of its own upload; nothing cached or stored for another upload, page or grouping can be substituted for them.",
  ["histories", "inputs"], "all sequences of uploads and runs sharing caches",
  "A substitution needs two runs sharing a cache; tests run one at a time with a fresh cache.",
  ["database/reconciliation.go", "database/transaction_grouping.go", "reconciliation.go"],
  [("cache keys", "database/"), ("upload_id predicates", "database/reconciliation.go")], [], ["POST /reconciliation/start"])
p("R02", "Reconciliation results are recorded faithfully, and only for real runs",
  "A dry run stores no matches, no unmatched records and touches no transaction; a real run stores every match and every unmatched record it found before it counts them as processed, and is marked completed only if processing ended without error, otherwise failed. Rules that could match everything by accident (no criteria, unknown field or operator, negative or out-of-range drift) are refused.",
  ["fault_sequences", "inputs"], "all failures during a run and all rule definitions",
  "Tests mock the store and check single flows.",
  ["reconciliation.go", "database/reconciliation.go"],
  [("transactionProcessor.process", "reconciliation.go"), ("validateRule", "reconciliation.go")], [], ["GET /reconciliation/:id"])
p("R03", "Uploaded external data is ingested completely or the upload fails",
  "Every record of an uploaded CSV or JSON file is either stored or makes the upload report an error: no row is skipped, no read, parse or storage error is dropped, no unparsable amount or date is stored as a default, an input that ends early, is cut off at the size limit, or whose upload is cancelled never counts as complete, and bad rows can never make an upload hang.",
  ["inputs", "fault_sequences"], "all files, including many malformed rows, and all storage failures",
  "Tests use small well-formed files with one bad row.",
  ["internal/files/files.go"], [("ProcessCSV / ProcessJSON", "internal/files/files.go")], [], ["POST /reconciliation/upload"])
p("R04", "Upload by URL only ever contacts allow-listed hosts",
  "The server fetches an upload URL only over http or https and only from a host on the configured allow list, with an empty list denying everything; redirects are held to the same list, the transfer is bounded in time and size, and anything but a success status is refused.",
  ["inputs", "configurations"], "all URLs, redirect chains and list configurations",
  "Tests try a few hosts; every path to the outbound call must be behind the check.",
  ["api/reconciliation_api.go", "config/config.go"], [("downloadAndUpload, hostAllowed", "api/reconciliation_api.go")], [], ["POST /reconciliation/upload"])

# ---------------------------------------------------------------- identity
p("I01", "Tokenized personal data is confidential and recoverable",
  "Personal fields are tokenized only with authenticated encryption under the configured key with a fresh random nonce per value, the service refuses to work without a valid key, and a stored token that fails authentication is never returned as data. Only the designated personal fields can be tokenized, a field is never tokenized twice, and an identity is stored with its marker and token together.",
  ["inputs", "configurations"], "all field values and keys",
  "Tests round-trip a few values; nonce freshness and the absence of fallbacks are properties of the code.",
  ["internal/tokenization/tokenization.go", "identity.go", "model/identity.go"],
  [("TokenizationService", "internal/tokenization"), ("TokenizeIdentityField", "identity.go")], [], ["POST /identities/:id/tokenize"])

# ---------------------------------------------------------------- security
p("S01", "Every API route requires authentication in secure mode",
  "With secure mode on, no request reaches any API handler unless it carries the configured non-empty master key or a known, unrevoked and unexpired API key with permission for that route; only liveness, root and the separately protected metrics endpoint are exempt. Any doubt (missing key, lookup failure, unknown resource or method) means refusal.",
  ["inputs", "configurations", "programs"], "all routes, present and added later, and all requests",
  "Tests request a few routes; the guarantee is over the whole route table and every path through the middleware.",
  ["api/api.go", "api/middleware/auth.go", "cmd/server.go"],
  [("Authenticate middleware installed before routes", "api/api.go"), ("AuthMiddleware.Authenticate", "api/middleware/auth.go")], [], ["every route"])
p("S02", "API-key permissions are enforced per resource and action",
  "An API key may perform a request only if one of its scopes grants that resource (or all resources) the action of the request's method (or all actions); reading, writing and deleting are distinct actions, and resources or methods without a mapping are denied. Every API route of a keyed resource maps to exactly that resource.",
  ["inputs", "programs"], "all scopes, paths and methods",
  "Tests try selected scope and path pairs.",
  ["api/middleware/scope.go", "api/middleware/auth.go"], [("HasPermission, methodToAction, pathToResource", "api/middleware/scope.go")], [], ["every route"])
p("S03", "API keys are unguessable, stored hashed and never revealed again",
  "An API key is generated from a cryptographic random source, only a slow salted hash of it is stored, and its plaintext appears only in the response that creates it. Revoked or expired keys are never valid, and secrets are compared in constant time.",
  ["inputs", "histories"], "all keys and all responses",
  "Tests check one key's round trip; absence of disclosure is over all code.",
  ["model/api_key.go", "database/api_key.go", "api/apikeys.go", "apikey.go", "api/middleware/auth.go"],
  [("GenerateKey, NewAPIKey, IsValid", "model/api_key.go"), ("bcrypt", "database/api_key.go")], [], ["/api-keys"])
p("S04", "API keys cannot escalate privilege",
  "Through an API key one can only create, list or revoke keys of one's own owner and only grant scopes one holds; managing hooks and server-wide operations reserved to the master key are refused to API keys before anything is done.",
  ["inputs", "histories"], "all principals, owners and scope sets",
  "Tests try a few combinations.",
  ["api/apikeys.go", "api/hooks.go", "api/middleware/scope.go", "database/api_key.go"],
  [("resolveAPIKeyOwner, validateGrantedScopes", "api/apikeys.go"), ("ensureHookManagementAuthorized", "api/hooks.go")], [], ["/api-keys", "/hooks"])
p("S05", "No request can inject SQL",
  "Text coming from a request is never part of the text of a database statement: it only travels as a bound parameter, or selects among fixed column names, or passes a strict character check for metadata keys. This holds for every statement, filter, sort order and grouping the API offers.",
  ["inputs", "programs"], "all request contents and all statements",
  "Tests try a few malicious strings on a few endpoints.",
  ["internal/filter/", "database/"], [("BuildWithOptions, safeColumnForTableAndField, sanitizeJSONKey", "internal/filter")], [], ["filter and list endpoints"])
p("S06", "Internal failures are not disclosed to API clients",
  "An internal failure (database, cache, network) that the API cannot classify is answered with a fixed message on server-error responses and logged; its text or its error object is never part of such a response: not in the message, the legacy field or the details. Handlers hand such failures to the central classifier rather than writing them out themselves.",
  ["inputs", "fault_sequences"], "all internal failures on all routes",
  "Tests trigger a few failures; disclosure is about every error path of every handler.",
  ["api/errors.go", "api/"], [("respondError", "api/errors.go")], [], ["every error response"])
p("S07", "Outgoing webhooks and hooks are signed, bounded and retried",
  "Every webhook and hook delivery carries a keyed signature over its timestamp and exact body when a secret is configured, is bounded by a timeout, and counts as delivered only on a success status; any other outcome is reported as a failure so that it is retried.",
  ["fault_sequences", "inputs"], "all payloads and receiver behaviours",
  "Tests use receivers answering 200 or 500.",
  ["webhooks.go", "internal/hooks/"], [("processHTTP, signature headers", "webhooks.go"), ("executeHook", "internal/hooks")], [], [])
p("S08", "Secrets are kept out of exported logs",
  "Every log record exported to the monitoring service passes redaction: values under sensitive names are removed at any nesting depth, and bearer tokens and URL credentials are masked in every string before it leaves the process.",
  ["inputs"], "all log fields and messages",
  "Tests redact a few literal fields.",
  ["internal/monitoringexporter/"], [("RedactFields, RedactString", "internal/monitoringexporter/redact.go")], [], [])

# ---------------------------------------------------------------- data access
p("D01", "Queries return complete results or an error",
  "A list or lookup never silently returns fewer records than the database holds for it: an error while reading or decoding any record, or one that ends the iteration early, fails the request.",
  ["fault_sequences"], "a connection failure at any record of any query",
  "Mocks rarely inject an error between records, and only into the queries they test.",
  ["database/", "model/model.go"], [("rows.Err and Scan checks", "database/")], [], ["all list endpoints"])
p("D02", "Failed writes are never reported as success",
  "If a statement that stores, changes or deletes ledger data fails, the operation that issued it reports failure to its caller, all the way up; and an update or deletion addressed to a record that must exist fails when no record matched.",
  ["fault_sequences"], "failure of any write statement",
  "Tests inject failures into selected statements.",
  ["database/", "*.go"], [("error returns", "database/")], [], ["all write endpoints"])
p("D03", "Statements and schema agree",
  "Every statement the ledger sends names only tables and columns that exist in the schema produced by its migrations, binds exactly the parameters it uses, inserts as many values as columns and reads as many values as it selects.",
  ["programs", "inputs"], "all statements against the schema after all migrations",
  "Tests run against a mock that does not know the schema.",
  ["database/", "sql/"], [("SQL text in Go", "database/"), ("migrations", "sql/")], [], ["all endpoints"])
p("D04", "Database resources are always released",
  "Every database transaction is ended and every result set, response body and connection-bound resource that was opened is closed on every way out of the code that opened it, including failures.",
  ["fault_sequences"], "failure at any point after a resource was opened",
  "Leaks do not fail tests; they exhaust the pool in production.",
  ["database/", "model/", "internal/request", "webhooks.go", "internal/hooks"], [("defer rows.Close, Rollback", "database/")], [], [])

# ---------------------------------------------------------------- concurrency
p("X01", "Request-scoped objects never outlive their request",
  "Work continuing in the background after a response is sent uses nothing that is recycled or cancelled with the request: not the request context, not the HTTP context object, so it is neither cut off nor fed with another request's data.",
  ["schedules"], "all background work started from a request",
  "A recycled object needs a second request at the right moment.",
  ["api/", "api/middleware/auth.go", "*.go"], [("background goroutines", "api/, root package")], [], [])
p("X02", "Concurrent work does not share mutable transaction state",
  "A record that background work modifies is a separate copy, including the metadata maps, lists and big numbers it modifies; variables and maps that concurrent activities share are modified only under a lock, atomically, or by one of them at a time; and fields and package variables guarded by a mutex are only touched while it is held.",
  ["schedules"], "all interleavings of background and foreground work",
  "The race detector only sees races the tests happen to schedule.",
  ["transaction_bulk.go", "transaction_execution.go", "internal/", "reconciliation.go"],
  [("cloneTransactionsForAsync", "transaction_bulk.go"), ("mutexes", "internal/")], [], [])
p("X03", "Cached answers are keyed by everything they depend on",
  "A value read back from the cache was stored for the same question: each cache key contains every argument that selects the data, and data that can be changed through the API is removed from the cache when it is changed.",
  ["histories"], "all sequences of reads and writes sharing a cache",
  "Tests start each case with an empty cache.",
  ["database/", "internal/cache", "balance.go"], [("cache keys and invalidation", "database/")], [], [])

# ---------------------------------------------------------------- beyond static reach (not claimed)
p("N01", "Historical balance equals the replay of transactions",
  "The balance reported for a past moment equals the sum of the effects of all transactions effective up to that moment.",
  ["histories"], "all histories of transactions, snapshots and back-dated entries",
  "Tests use canned rows for a few moments.",
  ["database/balance.go", "sql/1742099489.sql"], [("GetBalanceAtTime", "database/balance.go")], [], ["GET /balances/:id/at"])
p("N02", "Distribution shares add up to the transaction amount",
  "Splitting a transaction over several sources or destinations yields non-negative shares that add up exactly to its amount.",
  ["inputs"], "all amounts and distribution lists",
  "Tests use round percentages.",
  ["model/transaction.go"], [("CalculateDistributionsPrecise", "model/transaction.go")], [], ["POST /transactions"])
p("N03", "A lock outlives the work done under it",
  "The work done under a balance lock always ends before the lock expires, or loses its effect.",
  ["schedules"], "all durations of work and lock expiries",
  "Depends on run-time durations.",
  ["internal/lock", "transaction_execution.go"], [("lock TTL", "config")], [], [])
p("N04", "Search index converges to the database",
  "After indexing settles, a search returns exactly the records of the database.",
  ["histories", "fault_sequences"], "all histories of writes, index tasks and reindex runs",
  "Needs a running search engine.",
  ["internal/search"], [("HandleNotification, reindex", "internal/search")], [], ["POST /search/:collection"])
p("N05", "Hot-pair promotion preserves per-pair order",
  "Moving a busy source/destination pair between queue lanes never lets a later transaction of the pair overtake an earlier one.",
  ["schedules"], "all interleavings of lane changes and queue consumers",
  "Depends on queue contents at run time.",
  ["internal/hotpairs"], [("ResolveQueueLane", "internal/hotpairs/router.go")], [], [])
p("N06", "Reconciliation pairs each record at most once",
  "Within one reconciliation run every external record is either matched or unmatched, and no internal transaction is matched twice.",
  ["inputs", "schedules"], "all data sets, rules and worker interleavings",
  "Tests use one candidate per record.",
  ["reconciliation.go"], [("findMatchingInternalTransaction", "reconciliation.go")], [], ["POST /reconciliation/start"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
