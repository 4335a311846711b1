package main

import "verifharness/minidb"

func init() {
	dbProbes[minidb.PG] = map[string][2]string{
		"plain":                       {"CREATE TABLE t (id bigint NOT NULL)", "CREATE TABLE t (id bigint NOT NULL, name varchar(20))"},
		"unique-over-inline":          {"CREATE TABLE t (id bigint NOT NULL, c int UNIQUE); CREATE UNIQUE INDEX x ON t (c, id)", "CREATE TABLE t (id bigint NOT NULL, c int UNIQUE)"},
		"unique-column-removed":       {"CREATE TABLE t (id bigint NOT NULL, c int UNIQUE)", "CREATE TABLE t (id bigint NOT NULL, c int)"},
		"unique-column-added":         {"CREATE TABLE t (id bigint NOT NULL, c int)", "CREATE TABLE t (id bigint NOT NULL, c int UNIQUE)"},
		"unique-column-dropped":       {"CREATE TABLE t (id bigint NOT NULL, c int UNIQUE)", "CREATE TABLE t (id bigint NOT NULL)"},
		"index-of-dropped-column":     {"CREATE TABLE t (id bigint NOT NULL, c int); CREATE INDEX i ON t (c)", "CREATE TABLE t (id bigint NOT NULL)"},
		"reference-added":             {"CREATE TABLE p (id bigint PRIMARY KEY); CREATE TABLE t (id bigint NOT NULL, c bigint)", "CREATE TABLE p (id bigint PRIMARY KEY); CREATE TABLE t (id bigint NOT NULL, c bigint REFERENCES p)"},
		"leaving-pk":                  {"CREATE TABLE t (id bigint PRIMARY KEY, c bigint NOT NULL)", "CREATE TABLE t (id bigint, c bigint NOT NULL, PRIMARY KEY (c))"},
		"entering-pk":                 {"CREATE TABLE t (id bigint, c bigint NOT NULL)", "CREATE TABLE t (id bigint PRIMARY KEY, c bigint NOT NULL)"},
		"pk-custom-name":              {"CREATE TABLE t (id bigint NOT NULL, c bigint NOT NULL, CONSTRAINT my_pk PRIMARY KEY (id))", "CREATE TABLE t (id bigint NOT NULL, c bigint NOT NULL, CONSTRAINT my_pk PRIMARY KEY (c))"},
		"pk-custom-name-dropped":      {"CREATE TABLE t (id bigint NOT NULL, c bigint NOT NULL, CONSTRAINT my_pk PRIMARY KEY (id))", "CREATE TABLE t (id bigint NOT NULL, c bigint NOT NULL)"},
		"pk-dropped":                  {"CREATE TABLE t (id bigint NOT NULL PRIMARY KEY, c bigint NOT NULL)", "CREATE TABLE t (id bigint NOT NULL, c bigint NOT NULL)"},
		"composite-pk-fk":             {"CREATE TABLE p (a int, b int, PRIMARY KEY (a, b)); CREATE TABLE t (x int, y int, CONSTRAINT f FOREIGN KEY (x, y) REFERENCES p (a, b))", "CREATE TABLE p (a int, b int, PRIMARY KEY (a, b)); CREATE TABLE t (x int, y int, z int, CONSTRAINT f FOREIGN KEY (x, y) REFERENCES p (a, b))"},
		"numeric-precision":           {"CREATE TABLE t (id bigint NOT NULL, c numeric(10,2))", "CREATE TABLE t (id bigint NOT NULL, c numeric(12,4))"},
		"numeric-precision-kept":      {"CREATE TABLE t (id bigint NOT NULL, c numeric(10,2))", "CREATE TABLE t (id bigint NOT NULL, c numeric(10,2), d int)"},
		"timestamp-precision":         {"CREATE TABLE t (id bigint NOT NULL, c timestamp(3))", "CREATE TABLE t (id bigint NOT NULL, c timestamp(6))"},
		"timestamp-zone":              {"CREATE TABLE t (id bigint NOT NULL, c timestamp)", "CREATE TABLE t (id bigint NOT NULL, c timestamp with time zone)"},
		"timestamp-zone-removed":      {"CREATE TABLE t (id bigint NOT NULL, c timestamp with time zone)", "CREATE TABLE t (id bigint NOT NULL, c timestamp)"},
		"varchar-length-removed":      {"CREATE TABLE t (id bigint NOT NULL, c varchar(20))", "CREATE TABLE t (id bigint NOT NULL, c varchar)"},
		"char-length":                 {"CREATE TABLE t (id bigint NOT NULL, c char(3))", "CREATE TABLE t (id bigint NOT NULL, c char(10))"},
		"array-type":                  {"CREATE TABLE t (id bigint NOT NULL, c integer[])", "CREATE TABLE t (id bigint NOT NULL, c integer[], d text[])"},
		"array-added":                 {"CREATE TABLE t (id bigint NOT NULL, c integer)", "CREATE TABLE t (id bigint NOT NULL, c integer[])"},
		"float-names":                 {"CREATE TABLE t (a float, b float8, c float4, d real, e double precision)", "CREATE TABLE t (a float, b float8, c float4, d real, e double precision, f int)"},
		"int-names":                   {"CREATE TABLE t (a int2, b int4, c int8)", "CREATE TABLE t (a smallint, b int, c bigint)"},
		"decimal-name":                {"CREATE TABLE t (a decimal(10,2))", "CREATE TABLE t (a decimal(10,2), b int)"},
		"bool-default":                {"CREATE TABLE t (a bool default false, b boolean default true)", "CREATE TABLE t (a bool default true, b boolean)"},
		"negative-default":            {"CREATE TABLE t (a int DEFAULT -5)", "CREATE TABLE t (a int DEFAULT -5, b int)"},
		"negative-default-changed":    {"CREATE TABLE t (a int DEFAULT 5)", "CREATE TABLE t (a int DEFAULT -5)"},
		"float-default":               {"CREATE TABLE t (a numeric DEFAULT 1.50)", "CREATE TABLE t (a numeric DEFAULT 1.50, b int)"},
		"jsonb-default":               {"CREATE TABLE t (a jsonb DEFAULT '{}'::jsonb)", "CREATE TABLE t (a jsonb DEFAULT '{}'::jsonb, b int)"},
		"jsonb-plain-default":         {"CREATE TABLE t (a jsonb DEFAULT '{}')", "CREATE TABLE t (a jsonb DEFAULT '{}', b int)"},
		"date-default":                {"CREATE TABLE t (a date DEFAULT '2020-01-01')", "CREATE TABLE t (a date DEFAULT '2020-01-01', b int)"},
		"quote-default":               {"CREATE TABLE t (a text DEFAULT 'it''s')", "CREATE TABLE t (a text DEFAULT 'it''s x')"},
		"text-default-dropped":        {"CREATE TABLE t (a text DEFAULT 'a')", "CREATE TABLE t (a text)"},
		"now-default":                 {"CREATE TABLE t (a timestamp DEFAULT now())", "CREATE TABLE t (a timestamp DEFAULT CURRENT_TIMESTAMP)"},
		"check-kept":                  {"CREATE TABLE t (a int CHECK (a > 0))", "CREATE TABLE t (a int CHECK (a > 0), b int)"},
		"check-changed":               {"CREATE TABLE t (a int CHECK (a > 0))", "CREATE TABLE t (a int CHECK (a > 1))"},
		"check-two-columns":           {"CREATE TABLE t (a int, b int CHECK (b > a))", "CREATE TABLE t (a int, b int CHECK (b > a), c int)"},
		"check-in":                    {"CREATE TABLE t (a text CHECK (a in ('x', 'y')))", "CREATE TABLE t (a text CHECK (a in ('x', 'y')), c int)"},
		"check-other-schema":          {"CREATE TABLE s.t (a int)", "CREATE TABLE s.t (a int CHECK (a > 0))"},
		"identity-removed-null":       {"CREATE TABLE t (a int GENERATED ALWAYS AS IDENTITY)", "CREATE TABLE t (a int)"},
		"identity-options":            {"CREATE TABLE t (a int GENERATED ALWAYS AS IDENTITY (START WITH 5))", "CREATE TABLE t (a int GENERATED ALWAYS AS IDENTITY (START WITH 7))"},
		"serial-removed":              {"CREATE TABLE t (a serial)", "CREATE TABLE t (a int)"},
		"serial-added":                {"CREATE TABLE t (a int)", "CREATE TABLE t (a serial)"},
		"partial-index":               {"CREATE TABLE t (a int, b text); CREATE INDEX i ON t (a) WHERE b = 'x'", "CREATE TABLE t (a int, b text); CREATE INDEX i ON t (a) WHERE b = 'y'"},
		"partial-index-kept":          {"CREATE TABLE t (a int, b int); CREATE INDEX i ON t (a) WHERE b is not null and a > 1", "CREATE TABLE t (a int, b int); CREATE INDEX i ON t (a) WHERE b is not null and a > 1"},
		"index-desc":                  {"CREATE TABLE t (a int); CREATE INDEX i ON t (a DESC)", "CREATE TABLE t (a int); CREATE INDEX i ON t (a DESC)"},
		"index-desc-changed":          {"CREATE TABLE t (a int); CREATE INDEX i ON t (a)", "CREATE TABLE t (a int); CREATE INDEX i ON t (a DESC)"},
		"index-method-changed":        {"CREATE TABLE t (a int); CREATE INDEX i ON t (a)", "CREATE TABLE t (a int); CREATE INDEX i ON t USING hash (a)"},
		"index-other-schema":          {"CREATE TABLE s.t (a int); CREATE INDEX i ON s.t (a)", "CREATE TABLE s.t (a int)"},
		"policy-other-schema":         {"CREATE TABLE s.t (a int); CREATE POLICY p ON s.t FOR ALL TO public USING (a = 1)", "CREATE TABLE s.t (a int); CREATE POLICY p ON s.t FOR ALL TO public USING (a = 2)"},
		"index-pkey-name":             {"CREATE TABLE t (a int); CREATE UNIQUE INDEX t_x_pkey ON t (a)", "CREATE TABLE t (a int)"},
		"index-renamed":               {"CREATE TABLE t (a int); CREATE INDEX i ON t (a)", "CREATE TABLE t (a int); CREATE INDEX j ON t (a)"},
		"upper-case-unquoted":         {"CREATE TABLE Users (Id int, Name text)", "CREATE TABLE Users (Id int, Name text, Age int)"},
		"upper-case-quoted":           {"CREATE TABLE \"Users\" (\"Id\" int)", "CREATE TABLE \"Users\" (\"Id\" int, \"Name\" text)"},
		"keyword-names":               {"CREATE TABLE \"order\" (\"group\" int); CREATE INDEX \"select\" ON \"order\" (\"group\")", "CREATE TABLE \"order\" (\"group\" int, \"from\" int)"},
		"bytea":                       {"CREATE TABLE t (a bytea)", "CREATE TABLE t (a bytea, b int)"},
		"fk-cascade-kept":             {"CREATE TABLE p (id bigint PRIMARY KEY); CREATE TABLE t (id bigint NOT NULL, c bigint, CONSTRAINT f FOREIGN KEY (c) REFERENCES p (id) ON DELETE CASCADE ON UPDATE SET NULL)", "CREATE TABLE p (id bigint PRIMARY KEY); CREATE TABLE t (id bigint NOT NULL, c bigint, CONSTRAINT f FOREIGN KEY (c) REFERENCES p (id) ON DELETE CASCADE ON UPDATE SET NULL, d int)"},
		"policy-literal-case":         {`CREATE TABLE t (a text); CREATE POLICY p ON t TO PUBLIC USING (a = 'X')`, `CREATE TABLE t (a text); CREATE POLICY p ON t TO PUBLIC USING (a = 'x')`},
		"policy-check-literal-case":   {`CREATE TABLE t (a text); CREATE POLICY p ON t TO PUBLIC WITH CHECK (a = 'X')`, `CREATE TABLE t (a text); CREATE POLICY p ON t TO PUBLIC WITH CHECK (a = 'x')`},
		"policy-check-removed":        {`CREATE TABLE t (a text); CREATE POLICY p ON t TO PUBLIC USING (a = 'X') WITH CHECK (a = 'X')`, `CREATE TABLE t (a text); CREATE POLICY p ON t TO PUBLIC USING (a = 'X')`},
		"policy-using-added":          {`CREATE TABLE t (a text); CREATE POLICY p ON t TO PUBLIC WITH CHECK (a = 'X')`, `CREATE TABLE t (a text); CREATE POLICY p ON t TO PUBLIC USING (a = 'X') WITH CHECK (a = 'X')`},
		"policy-scope-changed":        {`CREATE TABLE t (a text); CREATE POLICY p ON t FOR SELECT TO PUBLIC USING (a = 'X')`, `CREATE TABLE t (a text); CREATE POLICY p ON t FOR DELETE TO PUBLIC USING (a = 'X')`},
		"fk-table-case":               {`CREATE TABLE p (id bigint PRIMARY KEY); CREATE TABLE "P" (id bigint PRIMARY KEY); CREATE TABLE t (c bigint, CONSTRAINT f FOREIGN KEY (c) REFERENCES p (id))`, `CREATE TABLE p (id bigint PRIMARY KEY); CREATE TABLE "P" (id bigint PRIMARY KEY); CREATE TABLE t (c bigint, CONSTRAINT f FOREIGN KEY (c) REFERENCES "P" (id))`},
		"fk-column-case":              {`CREATE TABLE p (id bigint PRIMARY KEY); CREATE TABLE t (c bigint, "C" bigint, CONSTRAINT f FOREIGN KEY (c) REFERENCES p (id))`, `CREATE TABLE p (id bigint PRIMARY KEY); CREATE TABLE t (c bigint, "C" bigint, CONSTRAINT f FOREIGN KEY ("C") REFERENCES p (id))`},
		"fk-reference-changed":        {"CREATE TABLE p (id bigint PRIMARY KEY); CREATE TABLE q (id bigint PRIMARY KEY); CREATE TABLE t (c bigint, CONSTRAINT f FOREIGN KEY (c) REFERENCES p (id))", "CREATE TABLE p (id bigint PRIMARY KEY); CREATE TABLE q (id bigint PRIMARY KEY); CREATE TABLE t (c bigint, CONSTRAINT f FOREIGN KEY (c) REFERENCES q (id))"},
		"fk-other-schema":             {"CREATE TABLE s.p (id bigint PRIMARY KEY); CREATE TABLE t (c bigint)", "CREATE TABLE s.p (id bigint PRIMARY KEY); CREATE TABLE t (c bigint, CONSTRAINT f FOREIGN KEY (c) REFERENCES s.p (id))"},
		"drop-tables-with-fk":         {"CREATE TABLE keep (id bigint); CREATE TABLE a (id bigint PRIMARY KEY); CREATE TABLE b (a_id bigint, CONSTRAINT f FOREIGN KEY (a_id) REFERENCES a (id))", "CREATE TABLE keep (id bigint)"},
		"drop-view-and-table":         {"CREATE TABLE keep (id bigint); CREATE TABLE t (a int); CREATE VIEW v AS SELECT t.a FROM t", "CREATE TABLE keep (id bigint)"},
		"drop-view-and-column":        {"CREATE TABLE t (a int, b int); CREATE VIEW v AS SELECT t.b FROM t", "CREATE TABLE t (a int)"},
		"view-column-dropped":         {"CREATE TABLE t (a int, b int); CREATE VIEW v AS SELECT t.a, t.b FROM t", "CREATE TABLE t (a int, b int); CREATE VIEW v AS SELECT t.a FROM t"},
		"view-literal-case":           {"CREATE TABLE t (a text); CREATE VIEW v AS SELECT t.a FROM t WHERE (t.a = 'x')", "CREATE TABLE t (a text); CREATE VIEW v AS SELECT t.a FROM t WHERE (t.a = 'X')"},
		"view-cast-changed":           {"CREATE TABLE t (a text); CREATE VIEW v AS SELECT t.a FROM t WHERE (t.a = 'x'::text)", "CREATE TABLE t (a text); CREATE VIEW v AS SELECT t.a FROM t WHERE (t.a = 'X'::text)"},
		"type-and-drop-default":       {"CREATE TABLE t (a int DEFAULT 5)", "CREATE TABLE t (a text)"},
		"type-and-default":            {"CREATE TABLE t (a int DEFAULT 5)", "CREATE TABLE t (a text DEFAULT 'x')"},
		"type-and-index":              {"CREATE TABLE t (a int); CREATE INDEX i ON t (a)", "CREATE TABLE t (a bigint); CREATE INDEX i ON t (a)"},
		"two-schemas-same-table":      {"CREATE TABLE t (a int); CREATE TABLE s.t (b int)", "CREATE TABLE t (a int, c int); CREATE TABLE s.t (b int)"},
		"two-schemas-same-constraint": {"CREATE TABLE t (a int CHECK (a > 0), PRIMARY KEY (a)); CREATE TABLE s.t (a int, b int, PRIMARY KEY (a, b))", "CREATE TABLE t (a int CHECK (a > 0), PRIMARY KEY (a)); CREATE TABLE s.t (a int, b int, PRIMARY KEY (a, b))"},
		"not-null-with-default":       {"CREATE TABLE t (a int NOT NULL DEFAULT 1)", "CREATE TABLE t (a int DEFAULT 1)"},
		"not-null-added":              {"CREATE TABLE t (a int)", "CREATE TABLE t (a int NOT NULL)"},
		"refs-added":                  {"CREATE TABLE p (id int NOT NULL PRIMARY KEY); CREATE TABLE t (id int)", "CREATE TABLE p (id int NOT NULL PRIMARY KEY); CREATE TABLE t (id int, a int REFERENCES p (id))"},
		"refs-kept":                   {"CREATE TABLE p (id int NOT NULL PRIMARY KEY); CREATE TABLE t (id int, a int REFERENCES p (id))", "CREATE TABLE p (id int NOT NULL PRIMARY KEY); CREATE TABLE t (id int, a int REFERENCES p (id), b int)"},
		"refs-removed":                {"CREATE TABLE p (id int NOT NULL PRIMARY KEY); CREATE TABLE t (id int, a int REFERENCES p)", "CREATE TABLE p (id int NOT NULL PRIMARY KEY); CREATE TABLE t (id int, a int)"},
		"refs-one-of-two":             {"CREATE TABLE p (id int NOT NULL PRIMARY KEY); CREATE TABLE t (a int REFERENCES p, b int REFERENCES p)", "CREATE TABLE p (id int NOT NULL PRIMARY KEY); CREATE TABLE t (a int, b int REFERENCES p)"},
		"refs-two-columns-key":        {"CREATE TABLE p (a int, b int, PRIMARY KEY (a, b)); CREATE TABLE t (a int, b int)", "CREATE TABLE p (a int, b int, PRIMARY KEY (a, b)); CREATE TABLE t (a int, b int, CONSTRAINT f FOREIGN KEY (a, b) REFERENCES p (a, b))"},
		"refs-and-fk":                 {"CREATE TABLE p (id int NOT NULL PRIMARY KEY); CREATE TABLE t (a int REFERENCES p, b int, CONSTRAINT f FOREIGN KEY (b) REFERENCES p (id))", "CREATE TABLE p (id int NOT NULL PRIMARY KEY); CREATE TABLE t (a int REFERENCES p, b int)"},
		"refs-own-table":              {"CREATE TABLE t (id int NOT NULL PRIMARY KEY)", "CREATE TABLE t (id int NOT NULL PRIMARY KEY, a int REFERENCES t (id))"},
		"smallserial":                 {"CREATE TABLE t (id int)", "CREATE TABLE t (id int, n smallserial)"},
		"smallserial-table":           {"CREATE TABLE t (id smallserial)", "CREATE TABLE t (id smallserial, n int)"},
		"comment-in-file":             {"CREATE TABLE t (a int)", "CREATE TABLE t (a int -- the key\n, b int) -- done\n"},
		"policy-no-to":                {"CREATE TABLE t (a int)", "CREATE TABLE t (a int); CREATE POLICY p ON t USING (a = 1)"},
	}
}
