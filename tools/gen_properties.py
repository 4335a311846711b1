#!/usr/bin/env python3
# Writes /verif/properties.jsonl. The texts live here only to keep line wrapping sane.
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

GEN = "schema/generator.go"; SP = "schema/parser.go"; RUN = "sqldef.go"; AD = "adapter/database.go"

prop("C01", "sqlite3def brings any SQLite database to the desired schema",
 "Whatever supported schema a SQLite database currently has and whatever supported schema file is given, running sqlite3def leaves the database with exactly the desired tables (same columns with the same definitions) and views, and every statement it issues is accepted by SQLite. An immediate second run with the same file reports that nothing is modified and changes nothing. This holds along any history of successive schema files.",
 ["inputs", "histories"],
 "all pairs and chains of schema files made of CREATE TABLE (columns, types, constraints, primary keys) and CREATE VIEW, where changes between them are among the supported ones: create/drop table, add/drop column, create/replace/drop view",
 "The tests run ten hand-written before/after pairs; the guarantee ranges over all current x desired pairs and chains of them, with arbitrary names, column sets and view bodies.",
 [RUN, GEN, SP, "adapter/sqlite3/sqlite3.go", AD, "cmd/sqlite3def/sqlite3def.go"],
 [("diff of desired and current tables/columns/views", GEN+":generateDDLs"), ("dump of the current schema", "adapter/sqlite3/sqlite3.go:TableNames/DumpTableDDL/Views"), ("apply in a transaction", AD+":RunDDLs")],
 [("sqlite_master", "the schema SQLite actually stores", "the database file")],
 ["sqlite3def stdout/exit status", "PRAGMA table_xinfo, sqlite_master"])

prop("C02", "mysqldef migrations run in order and end at the desired schema",
 "For any supported current and desired MySQL schema, the statements mysqldef issues are each valid at the moment they are executed (no key dropped while AUTO_INCREMENT or a foreign key still needs it, no column referenced before it exists, and so on), and after the last one the tables, columns (type, nullability, default, AUTO_INCREMENT, order of added columns), keys, foreign keys, views and triggers equal the desired ones. A second run with the same file then finds nothing to modify.",
 ["inputs", "histories"],
 "all pairs and chains of MySQL schema files over the supported features listed in the README (tables, columns, CHANGE COLUMN, AUTO_INCREMENT, primary/unique/secondary keys, named foreign keys, views, triggers)",
 "The mysqldef tests need a MySQL server, are not run here, and sample single edits; combinations (for instance dropping an AUTO_INCREMENT column together with its key while adding another) are unbounded.",
 [RUN, GEN, SP, "adapter/mysql/mysql.go", AD, "cmd/mysqldef/mysqldef.go"],
 [("ordered emission of column, AUTO_INCREMENT, key and foreign-key statements", GEN+":generateDDLsForCreateTable"), ("cleanup of obsolete objects, foreign keys before indexes before columns", GEN+":generateDDLs"), ("dump via SHOW CREATE TABLE / SHOW TRIGGERS / information_schema", "adapter/mysql/mysql.go")],
 [("server schema", "the schema reached after each executed statement", "server side")],
 ["statements received by the server, in order", "mysqldef stdout/exit status"])

prop("C03", "psqldef migrations run in order and end at the desired schema",
 "For any supported current and desired PostgreSQL schema, the statements psqldef issues are each valid at the moment they are executed, and after the last one the tables, columns (type, nullability, default, identity, check), primary keys, indexes, foreign keys, policies and views equal the desired ones. A second run with the same file then finds nothing to modify.",
 ["inputs", "histories"],
 "all pairs and chains of PostgreSQL schema files over the supported features (tables in several schemas, columns and ALTER COLUMN, identity, defaults, checks, indexes with WHERE and direction, primary and named foreign keys, policies, views)",
 "The psqldef tests need a PostgreSQL server, are not run here, and sample single edits; the guarantee ranges over all combinations and over everything the catalogs can report back.",
 [RUN, GEN, SP, "adapter/postgres/postgres.go", AD, "cmd/psqldef/psqldef.go"],
 [("per-aspect ALTER COLUMN emission", GEN+":generateDDLsForCreateTable"), ("schema-qualified naming", SP+":normalizedTableName, "+GEN+":escapeTableName"), ("catalog dump", "adapter/postgres/postgres.go")],
 [("server schema", "the schema reached after each executed statement", "server side")],
 ["statements received by the server, in order", "psqldef stdout/exit status"])

prop("C04", "mssqldef migrations run in order and end at the desired schema",
 "For any supported current and desired SQL Server schema, the statements mssqldef issues are each valid at the moment they are executed (named default constraints and keys are dropped before the column they depend on), and after the last one the tables, columns, defaults, checks, identity, primary keys, indexes with their options, foreign keys, views and triggers equal the desired ones. A second run with the same file then finds nothing to modify.",
 ["inputs", "histories"],
 "all pairs and chains of SQL Server schema files over the supported features (tables, columns, named/unnamed defaults and checks, identity, clustered/nonclustered keys and indexes with options and INCLUDE, named foreign keys, views, triggers)",
 "The mssqldef tests need a SQL Server, are not run here, and sample single edits.",
 [RUN, GEN, SP, "adapter/mssql/mssql.go", AD, "cmd/mssqldef/mssqldef.go"],
 [("constraint handling for SQL Server", GEN+":generateDDLsForCreateTable, generateDDLsForAbsentColumn"), ("catalog dump", "adapter/mssql/mssql.go")],
 [("server schema", "the schema reached after each executed statement", "server side")],
 ["statements received by the server, in order", "mssqldef stdout/exit status"])

prop("C05", "Rewriting a schema without changing its meaning yields no migration",
 "If the desired file describes the schema the database already has, no DDL is produced, however the file is written: letter case of keywords and types, whitespace, line comments, quoting of names, spelled-out or aliased types, defaults written explicitly that equal the implied ones, keys written inside the table or as separate statements, and order of independent statements do not matter. The same holds for the spelling in which the database itself reports its schema.",
 ["inputs"],
 "all supported schemas of the four dialects x all meaning-preserving respellings of the desired file and of the dumped schema",
 "The tests check idempotency for a handful of fixed files written in one style.",
 [GEN, SP, "sqlparser/token.go", "sqlparser/parser.y"],
 [("type aliases and default/collation normalization", GEN+":normalizeDataType, areSameDefaultValue; "+SP+":normalizeCollate"), ("statement splitting and comment removal", SP+":parseDDLs"), ("case-insensitive keywords", "sqlparser/token.go:scanIdentifier")],
 None, ["library result of the diff", "CLI output"])

prop("C06", "Only what differs is touched; unrelated objects and data survive",
 "A migration only touches objects whose definition differs between the current and the desired schema: tables, columns, keys, constraints, policies and views that are the same in both appear in no statement as the target of a change. An object is dropped only if it is absent from the desired schema or has to be recreated because its own definition changed. Rows and the values of columns that exist before and after are preserved.",
 ["inputs", "histories"],
 "all supported current/desired pairs in the four dialects; for SQLite with arbitrary row contents",
 "Tests compare the full output of single edits on one or two tables and never hold data; a wrong lookup that hits a neighbour object needs several similar objects at once.",
 [GEN, AD],
 [("lookups by name in current and desired schema", GEN+":find*ByName, convert*ToNames"), ("cleanup loop", GEN+":generateDDLs")],
 None, ["statements received by the server", "SQLite table contents before and after"])

prop("C07", "Dry run changes nothing and shows exactly what apply would run",
 "With --dry-run no statement that could modify the database is ever sent, whatever the current and desired schemas. The statements it prints, including which ones are marked as skipped, are exactly those (same text, same order) that an apply run with the same other options then executes and prints.",
 ["inputs", "configurations"],
 "all supported current/desired pairs, four dialects, with and without --skip-drop, from file and from stdin",
 "The tests check the dry-run text of one fixed case per database and cannot see writes that leave no visible difference.",
 [RUN, AD],
 [("dry-run branch before RunDDLs", RUN+":Run, showDDLs"), ("apply path printing", AD+":RunDDLs")],
 None, ["stdout of both runs", "statements received by the server", "bytes of the SQLite file"])

prop("C08", "With --skip-drop nothing is dropped and everything else still runs",
 "With --skip-drop no statement that drops an object is executed, no table, column, key, constraint, policy or view that existed before is gone afterwards, and no data is lost. Each withheld statement is reported as skipped, and all the other statements of the plan are executed in their original order. Statements that drop nothing are never withheld.",
 ["inputs", "configurations"],
 "all supported current/desired pairs, four dialects, including names and values that merely look like the keyword",
 "Tests cover one dropped table/column per database.",
 [AD, RUN],
 [("skip test per statement", AD+":RunDDLs"), ("same test when only showing", RUN+":showDDLs")],
 None, ["statements received by the server", "stdout", "database before/after"])

prop("C09", "A failing apply is rolled back, stops, and exits non-zero",
 "Applying runs all statements in one transaction: if any statement, the start of the transaction or its commit fails, or the connection is lost, nothing after the failing point is executed, everything done so far is rolled back, and the tool exits non-zero with the error on stderr. A zero exit status means that every printed statement was executed and committed.",
 ["fault_sequences", "crash_points", "inputs"],
 "every point of every plan (begin, each statement, commit, each catalog query) x fault kind (server error, connection loss, lock, constraint violation by data)",
 "No test injects a failure into an apply; commit failure and mid-plan failures need a misbehaving server or a locked database.",
 [AD, RUN],
 [("transaction with rollback on error", AD+":RunDDLs"), ("fatal exit", RUN+":Run")],
 [("transaction state", "begun / committed / rolled back", "database/sql transaction")],
 ["server-side log of begin/exec/commit/rollback", "exit status", "SQLite file"])

prop("C10", "Export reproduces the schema the database really has",
 "--export prints, for any database, a script that describes every table, column, key, constraint, policy, view and trigger of the supported kinds and nothing that does not exist; running it on an empty database recreates the same schema, and giving it back as the desired file yields no modification. Exporting never changes the database, and a database without objects is reported as such.",
 ["inputs"],
 "all database schemas of supported features in the four databases, including those not created by the tool itself, with several schemas and similarly named objects",
 "Tests export one small schema per database; the catalog queries of the server adapters are not exercised at all here.",
 [RUN, AD, "adapter/mysql/mysql.go", "adapter/postgres/postgres.go", "adapter/mssql/mssql.go", "adapter/sqlite3/sqlite3.go"],
 [("dump assembly", AD+":DumpDDLs"), ("catalog queries and DDL building", "adapter/*/*.go")],
 None, ["export stdout", "catalog contents"])

prop("C11", "Invalid or unsupported input is refused before anything is changed",
 "If the desired file contains text that cannot be understood, or statements or constructs that are not supported (data manipulation, DROP or other ALTER statements, tables, indexes, policies, views or triggers defined twice, indexes, foreign keys or policies of tables not defined before, foreign keys without a name where one is required), the tool prints an error, exits non-zero and does not modify the database at all, wherever in the file the problem is. It never silently ignores a statement of the file. (Free-form table options after the closing parenthesis are passed on as they are, and the table of a trigger is not checked.)",
 ["inputs"],
 "all schema files of the four dialects with an error or unsupported statement injected at any position",
 "Tests include a few error messages; the position of the faulty statement and the kind of fault are unbounded.",
 [SP, GEN, RUN, "sqlparser/token.go", "sqlparser/parser.y"],
 [("strict DDL parsing", "sqlparser/ast.go:ParseStrictDDLWithMode"), ("unsupported statement errors", SP+":parseDDL"), ("duplicate and ordering checks", GEN+":generateDDLsFor*")],
 None, ["exit status, stderr", "statements received by the server"])

prop("C12", "Parsing and planning never crash, hang or depend on anything but input",
 "For any text whatsoever, in every dialect, parsing it (strictly or leniently, as a whole or statement by statement) and planning a migration with it as desired or current schema returns a result or an error: it never panics, never reads outside its input, never loops forever and never ends the process. The same input always gives the same result, and parsing does not modify its input.",
 ["inputs"],
 "all byte strings as SQL text, all pairs of them as desired/current schema, in all dialects and all parsing entry points",
 "The parser tests list a few hundred well-formed statements and a dozen errors.",
 ["sqlparser/token.go", "sqlparser/parser.y", "sqlparser/comments.go", "sqlparser/ast.go", SP, GEN],
 [("tokenizer end-of-input handling", "sqlparser/token.go:Scan"), ("error productions", "sqlparser/parser.y"), ("planner error returns", GEN)],
 None, ["return values, panics, termination of parsing and planning calls"])

prop("C13", "Printing a parsed statement and parsing it again gives the same statement",
 "For every accepted statement of the kinds the printer writes out in full (queries, INSERT/UPDATE/DELETE/REPLACE, SET, USE, SHOW, transaction statements, view definitions, the columns and keys of CREATE TABLE, drop/rename/truncate, and expressions of checks, policies and views), the printed text is accepted again and denotes the same statement (same structure, operators, grouping, names and literals), and printing that again gives the same text. Names and string literals of any content survive, including keywords, quotes, backslashes (MySQL mode) and non-ASCII bytes.",
 ["inputs"],
 "all accepted statements of those kinds in all dialect modes",
 "Parser tests compare printed text for fixed statements; precedence and quoting combinations are unbounded, and DDL view/check/policy comparison relies on it.",
 ["sqlparser/ast.go", "sqlparser/parser.y", "sqlparser/token.go", "sqlparser/tracked_buffer.go", "sqlparser/dependency/sqltypes/value.go"],
 [("node printing", "sqlparser/ast.go:Format methods"), ("identifier quoting", "sqlparser/ast.go:formatID"), ("literal escaping", "sqlparser/dependency/sqltypes/value.go:encodeBytesSQL")],
 None, ["parsed structure and printed text"])

prop("C14", "Statements are split and tokenized the same however the text arrives",
 "Reading a multi-statement text piece by piece yields exactly the statements written in it, in order, with quotes, comments and semicolons inside literals respected, whatever the piece size the underlying reader delivers; errors do not depend on the piece size, a statement following a well-formed one is always found, and after a syntax error reading resumes behind the next semicolon. Splitting a query into its leading/trailing comments and its body loses nothing.",
 ["inputs", "schedules"],
 "all concatenations of statements with arbitrary comments, literals and separators x all ways a reader can split the bytes",
 "The streaming test feeds one concatenation with one buffer size.",
 ["sqlparser/token.go", "sqlparser/ast.go", "sqlparser/comments.go"],
 [("buffered tokenizer", "sqlparser/token.go:next, Scan"), ("statement iteration", "sqlparser/ast.go:ParseNext, SplitStatement*"), ("margin comments", "sqlparser/comments.go:SplitMarginComments")],
 None, ["statement sequence and errors"])

prop("C15", "Normalizing and redacting replace every literal, and only literals",
 "Normalizing a query replaces its string, integer (64-bit) and float literals by bind variables such that substituting the returned values back yields an equivalent query, never captures a bind variable already used, and reuses a variable only for equal values. Redacting a query leaves none of these literal values of the original in the result while keeping the rest of the query unchanged.",
 ["inputs"],
 "all accepted queries and data manipulation statements with arbitrary literals, lists and pre-existing bind variables",
 "Tests cover a dozen fixed queries.",
 ["sqlparser/normalizer.go", "sqlparser/redact_query.go", "sqlparser/ast.go"],
 [("literal walk", "sqlparser/normalizer.go"), ("bind name reservation", "sqlparser/normalizer.go:newName, GetBindvars")],
 None, ["normalized statement, bind variables, redacted text"])

prop("C16", "Substituted values stay data: bind substitution cannot change a query",
 "Generating a query from a parsed template and valid bind variables inserts each value as one literal (or one tuple of literals) at its place and nowhere else: parsing the generated text gives the template's structure with exactly those values, whatever bytes they contain. Missing or wrongly shaped values are reported as errors instead of producing a query.",
 ["inputs"],
 "all templates with bind variables and lists x all values (all types, arbitrary bytes, empty, null, nested tuples)",
 "Tests substitute a few benign values.",
 ["sqlparser/parsed_query.go", "sqlparser/encodable.go", "sqlparser/tracked_buffer.go", "sqlparser/dependency/sqltypes/value.go"],
 [("location tracking", "sqlparser/tracked_buffer.go:WriteArg"), ("value encoding", "sqlparser/parsed_query.go:EncodeValue; sqltypes/value.go:EncodeSQL")],
 None, ["generated text, its parse"])

prop("C17", "SQL values and bind variables survive conversion unchanged",
 "Converting a value between its native form, its typed SQL value, its bind variable, and its textual literal preserves type and content, for every type and any bytes; its JSON form shows the value, and reading it back gives the same value for integers and null and an error otherwise. Conversions that would lose information return an error. Resolving a plan value yields exactly the referenced variable or list.",
 ["inputs"],
 "all values of all SQL types, native integers, floats, strings and byte strings, lists, and all plan values over them",
 "Tests list fixed examples per type.",
 ["sqlparser/dependency/sqltypes/value.go", "sqlparser/dependency/sqltypes/bind_variables.go", "sqlparser/dependency/sqltypes/plan_value.go", "sqlparser/dependency/sqltypes/type.go", "sqlparser/dependency/bytes2/buffer.go", "sqlparser/dependency/hack/hack.go"],
 [("type checks on construction", "sqltypes/value.go:NewValue, InterfaceToValue"), ("bind variable building/validation", "sqltypes/bind_variables.go"), ("plan value resolution", "sqltypes/plan_value.go")],
 None, ["values returned by the conversions"])

prop("C18", "Parsing and planning are safe and deterministic under concurrency",
 "Any number of goroutines may parse, print, normalize and plan at the same time: there is no data race, no result depends on the others, and each result equals the one obtained alone. Using a parsed statement or cached query from several goroutines for reading is safe.",
 ["schedules", "inputs"],
 "all interleavings of concurrent parse/print/normalize/plan calls on arbitrary inputs",
 "Existing tests run single-threaded and the race detector is not enabled.",
 ["sqlparser/ast.go", "sqlparser/token.go", "sqlparser/parser.go", GEN, SP],
 [("no shared mutable state; pooled parsers must be reset", "sqlparser/ast.go:Parse, setParseTree"), ("keyword tables are read-only", "sqlparser/token.go:keywords")],
 None, ["race detector reports", "results compared with sequential runs"])

prop("C19", "Connection settings reach the server exactly as given",
 "User, password, host, port, socket and database name, given by options, defaults or environment variables, are used for the connection exactly as given, whatever characters they contain; the password environment variable overrides the password option. No other database or server than the one named is contacted.",
 ["configurations", "inputs"],
 "all combinations of options and environment variables x arbitrary characters in the values, for the three server databases",
 "One unit test checks one DSN; special characters, precedence and sockets are not tested.",
 ["adapter/postgres/postgres.go", "adapter/mysql/mysql.go", "adapter/mssql/mssql.go", "cmd/mysqldef/mysqldef.go", "cmd/psqldef/psqldef.go", "cmd/mssqldef/mssqldef.go"],
 [("DSN building with escaping", "adapter/*/:*BuildDSN"), ("option and environment handling", "cmd/*/:parseOptions")],
 None, ["login packets received by the server"])

prop("C20", "Command line behaves predictably and reports failure by exit status",
 "Each tool accepts exactly one database name, reads the schema from the given file or from stdin with the same effect, prints help or version without touching any database, and rejects missing or extra names and unknown options with a non-zero status. Exit status is zero exactly when the requested operation completed; unreadable schema files and unreachable databases give a non-zero status and an error on stderr without changing anything.",
 ["configurations", "inputs"],
 "all option combinations and input sources of the four tools",
 "Tests cover help and a few successful flags of one tool.",
 [RUN, "cmd/mysqldef/mysqldef.go", "cmd/psqldef/psqldef.go", "cmd/sqlite3def/sqlite3def.go", "cmd/mssqldef/mssqldef.go"],
 [("option parsing", "cmd/*/:parseOptions"), ("schema reading", RUN+":readFile")],
 None, ["stdout, stderr, exit status", "connections received"])

prop("C21", "The plan does not depend on listing order or on unrelated objects",
 "The order in which the database lists its tables, indexes and constraints does not change which changes are made: for every order the same statements result (independent drops may be reordered) and every order is valid. Adding the same unrelated tables to both the current and the desired schema adds no statement and changes none.",
 ["inputs"],
 "all supported current/desired pairs x permutations of the dumped objects x added unrelated objects, four dialects",
 "Tests always see one order and at most two tables.",
 [GEN, SP, AD],
 [("name-based matching", GEN+":find*ByName"), ("incremental simulation of the current state", GEN+":generateDDLs")],
 None, ["library result of the diff"])

prop("C22", "Query inspection helpers agree with the parsed statement",
 "Classifying a statement from its text agrees with the kind of statement it parses to; walking a statement visits every sub-expression and every column and table name exactly once and stops when told; replacing an expression (outside subqueries) replaces exactly that occurrence; in the impossible form of a query every select has the same columns and an unsatisfiable condition; directives and margin comments are recognised wherever comments are allowed and never change the statement.",
 ["inputs"],
 "all accepted statements with arbitrary comments, letter case and nesting",
 "Tests list fixed examples.",
 ["sqlparser/analyzer.go", "sqlparser/ast.go", "sqlparser/comments.go", "sqlparser/impossible_query.go"],
 [("prefix classification", "sqlparser/analyzer.go:Preview"), ("visitor", "sqlparser/ast.go:Walk, walkSubtree, replace"), ("directives", "sqlparser/comments.go")],
 None, ["helper results compared with the parsed statement"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
