NA = {}
CLAIMED["C01"] = ("differential state monitor against SQLite itself over chains of generated schemas", "exploration",
  "Runs the real sqlite3def on real SQLite files over chains of generated schema files; after every step the stored schema, accepted rows and view results are compared with a database SQLite built from the file alone. Trusts the SQLite library as the meaning of a file; sampled, not exhaustive.")
CLAIMED["C13"] = ("round-trip monitor on generated token streams (print, reparse, structural diff, names and literals read back from the tree)", "exploration",
  "Parses generated statements of every covered grammar production in four dialect modes, spelled with random case, comments, quoting and hostile names/literals; the printed text must reparse to a structurally equal tree, print the same, and carry exactly the generated names, literals and grouping. Sampled. Kinds the printer abbreviates (ALTER, PROCEDURE, column DESC in keys) are outside the property; deviations are known findings.")
CLAIMED["C14"] = ("trace monitor over tokenizer/statement streams under chunked and failing readers", "exploration",
  "Feeds generated scripts and hostile byte strings to the tokenizer and ParseNext through readers that deliver 1..n bytes, empty reads, EOF with data, and errors; the token and statement traces must equal those of the whole text and the statements written. Chunkings are sampled, the buffer-boundary ones deliberately placed.")
CLAIMED["C15"] = ("conservation monitor on Normalize/RedactSQLQuery: literals accounted for one by one", "exploration",
  "For generated queries with hostile literals and pre-existing bind variables, substitutes the returned values back and compares trees, checks name capture and value sharing, and searches the redacted text for the original literals. Sampled.")
CLAIMED["C16"] = ("injection monitor: generated query reparsed and compared with the template, value by value", "exploration",
  "Templates (generated statements with arguments and lists) are filled with values of every type and hostile bytes; the reparsed text must equal the template's tree with exactly those literals. Values ValidateBindVariable rejects are outside the property.")
CLAIMED["C17"] = ("conversion monitor with independent reference arithmetic for every type", "exploration",
  "Every conversion between native, sqltypes.Value, bind variable, literal and JSON is compared with an independently computed expectation over boundary and random values of all types, and plan values are resolved against a reference. Sampled over contents, exhaustive over types.")
CLAIMED["C22"] = ("helper monitor: Preview/Walk/Replace/impossible/directives against reflection over the parsed tree", "exploration",
  "The visits of Walk are compared with a reflective traversal of the same tree, replacements with a structural diff, classification with the type of the parsed statement, and the impossible form with every select of the tree, on generated statements with random comments and case. Sampled.")
CLAIMED["C12"] = ("crash/hang/determinism monitor: worker processes under a watchdog run every entry point on generated and mutated text", "exploration",
  "Every parsing entry point and the planner in four dialects are run twice in worker processes on generated, corpus, spliced, mutated and deeply nested text and on schema pairs; a panic, exit, runaway processor time or memory, changed input or different second answer is a violation. Sampled; 'never ends' means 20 s of CPU for one small case.")
CLAIMED["C18"] = ("Go race detector (with pointer checks) plus result comparison of concurrent and sequential runs", "exploration",
  "Fresh race-instrumented processes start 2-12 goroutines over all entry points and over shared parsed statements; any race report or any result that differs from running alone is a violation. Schedules are sampled; a race is found on executed paths whatever the schedule.")
SRV = "The real tools run end to end against stand-in MySQL, PostgreSQL and SQL Server servers (wire protocols in harness/mysqlsrv.go, pgsrv.go and tdssrv.go; harness/minidb: a strict in-memory catalog written independently of sqldef that rejects what the database rejects). "
CLAIMED["C02"] = ("end-to-end trace monitor: mysqldef against a recording stand-in server with a strict catalog model, over chains of schemas", "exploration",
  SRV + "Every executed statement must be accepted, the final catalog must equal the one the desired file builds from nothing, and a second run must report nothing. Sampled chains; trusts the catalog model for what MySQL accepts and how it reports it; listed deviations are known findings.")
CLAIMED["C03"] = ("end-to-end trace monitor: psqldef against a recording stand-in PostgreSQL server with a strict catalog model, over chains of schemas", "exploration",
  SRV + "Every executed statement must be accepted, the final catalog must equal the one the desired file builds from nothing, and a second run must report nothing; psqldef's catalog queries are evaluated over pg_catalog and information_schema tables filled from the model. Sampled chains; trusts the catalog model for what PostgreSQL accepts and how it reports it; listed deviations are known findings.")
CLAIMED["C04"] = ("end-to-end trace monitor: mssqldef against a recording stand-in SQL Server (TDS) with a strict catalog model, over chains of schemas", "exploration",
  SRV + "Every executed statement must be accepted (columns only without their constraints, one clustered index, referenced keys), the final catalog must equal the one the desired file builds from nothing, and a second run must report nothing; mssqldef's catalog queries are evaluated over sys tables filled from the model. Sampled chains; trusts the catalog model for what SQL Server accepts and how it reports it; listed deviations are known findings.")
CLAIMED["C05"] = ("equivalence monitor: randomly respelled files and the server's own spelling must have no effect", "exploration",
  SRV + "sqlite3def runs on real SQLite files. Files that describe exactly the present schema, spelled randomly (case, space, comments, quoting, type aliases, explicit defaults, inline or separate keys, statement order), must print that nothing is modified and send nothing. Sampled.")
CLAIMED["C06"] = ("effect monitor: subjects and drops of every executed statement against the difference of the schemas; object identities and rows", "exploration",
  SRV + "Each statement's touched and dropped objects must differ between the two schemas; tables and columns on both sides keep their identity (server) or their rows (real SQLite). Sampled; a moved MySQL column counts as different only if it changed sides with another column.")
CLAIMED["C07"] = ("differential monitor of dry run and apply run over recorded statements", "exploration",
  SRV + "A dry run must send no statement but queries, and its printed plan must equal what the apply run prints and what the server (or a replay on a copy of the SQLite file) records as executed, with and without --skip-drop, also for refused files. Sampled.")
CLAIMED["C08"] = ("effect monitor of --skip-drop against the full plan's recorded effects", "exploration",
  SRV + "The plan is executed once to learn each statement's effect; with --skip-drop exactly the dropping statements are withheld and marked, the others run in order, and no object, identity or row is gone. Sampled, server and real SQLite.")
CLAIMED["C09"] = ("fault injection at every request of a recorded run (errors, lost connections, cut result sets, locks) with a transaction-trace monitor", "fault_enumeration",
  SRV + "For each migration, faults are injected at login, every query, BEGIN, every statement and COMMIT; the trace must show no statement after the failure, a rollback, non-zero exit and an error message. On real SQLite statements are made to fail, the file is locked, and the tool is killed after each printed statement; the file must be unchanged (or wholly migrated). MySQL's implicit commits are the server's, so for it the trace is judged, not the final state.")
CLAIMED["C10"] = ("round-trip monitor: exported script executed by an independent catalog and by the tool itself", "exploration",
  SRV + "The exported text must rebuild an equal catalog on an empty database (through the model, and through the tool), be without effect as desired file, and leave the database untouched; also on real SQLite. The order of exported tables and views is a known finding and tolerated in the random cases. Sampled.")
CLAIMED["C11"] = ("refusal monitor: files with one thing wrong anywhere must leave no trace but an error", "exploration",
  SRV + "Valid files are broken in one place (unsupported statements, nonsense, brackets, duplicates, undefined tables, wrong order, unclosed quotes) at random positions and given with random options; the tool must exit non-zero with a message, start no transaction, and change nothing; also on real SQLite. Free-form table options are passed on by design and not judged.")
CLAIMED["C21"] = ("metamorphic monitor: permuted catalog listings and unrelated tables must not change the recorded plan", "exploration",
  SRV + "Listings without ORDER BY are shuffled by the stand-in server and unrelated tables are added to both sides; the multiset of executed statements must be the same and end at the same catalog; on SQLite the creation order is permuted. Sampled.")
CLAIMED["C19"] = ("login monitor: what real tools present to stand-in servers, with decoy servers listening everywhere else", "exploration",
  "Random and hostile values for user, password, host, socket and database name are given by options (every spelling), environment, defaults or a terminal prompt; the login packet recorded by the server must carry exactly these values (passwords verified through the real authentication exchange) and no decoy server on other addresses or ports may be contacted. Sampled; values of options and environment cannot contain NUL.")
CLAIMED["C20"] = ("command-line monitor of the four real tools: status, stderr, connections and database contents for every kind of invocation", "exploration",
  "Help, version, misuse, schema sources (pipes, files, odd names, slow and wrong ones), unreachable and broken databases and unwritable output are run with random flags in random order; exit status, messages, connections received and the unchanged database are judged, and equal inputs by different ways must have equal effects. Sampled.")
