package main

import "verifharness/minidb"

func init() {
	t := func(cols string) string { return "CREATE TABLE t (" + cols + ")" }
	dbProbes[minidb.MSSQL] = map[string][2]string{
		"plain":                    {t("id bigint NOT NULL"), t("id bigint NOT NULL, name varchar(20)")},
		"type-changed":             {t("id int, c int"), t("id int, c bigint")},
		"length-changed":           {t("id int, c varchar(20)"), t("id int, c varchar(40)")},
		"not-null-added":           {t("id int, c int"), t("id int, c int NOT NULL")},
		"not-null-removed":         {t("id int, c int NOT NULL"), t("id int, c int")},
		"identity-added":           {t("id int, c int"), t("id int, c int IDENTITY(1,1)")},
		"identity-removed":         {t("id int, c int IDENTITY(1,1)"), t("id int, c int")},
		"identity-changed":         {t("id int, c int IDENTITY(1,1)"), t("id int, c int IDENTITY(10,5)")},
		"identity-repl":            {t("id int, c int IDENTITY(1,1)"), t("id int, c int IDENTITY(1,1) NOT FOR REPLICATION")},
		"unique-column":            {t("id int, c int UNIQUE"), t("id int, c int UNIQUE, d int")},
		"unique-column-added":      {t("id int, c int"), t("id int, c int UNIQUE")},
		"unique-column-removed":    {t("id int, c int UNIQUE"), t("id int, c int")},
		"unique-column-dropped":    {t("id int, c int UNIQUE"), t("id int")},
		"drop-column-with-check":   {t("id int, c int CHECK (c > 1)"), t("id int")},
		"drop-column-with-default": {t("id int, c int DEFAULT 1"), t("id int")},
		"drop-column-with-index":   {t("id int, c int") + "; CREATE INDEX i ON t (c)", t("id int")},
		"drop-table-of-view":       {t("id int") + "; CREATE VIEW v AS SELECT id FROM t", "CREATE TABLE u (id int)"},
		"drop-column-of-view":      {t("id int, c int") + "; CREATE VIEW v AS SELECT id, c FROM t", t("id int") + "; CREATE VIEW v AS SELECT id FROM t"},
		"drop-referenced-table":    {"CREATE TABLE p (id int PRIMARY KEY); " + t("id int, c int, CONSTRAINT f FOREIGN KEY (c) REFERENCES p (id)"), t("id int, c int")},
		"clustered-moved":          {t("id int, c int") + "; CREATE CLUSTERED INDEX i ON t (id)", t("id int, c int") + "; CREATE CLUSTERED INDEX j ON t (c)"},
		"clustered-pk-to-index":    {t("id int NOT NULL PRIMARY KEY, c int"), t("id int NOT NULL, c int") + "; CREATE CLUSTERED INDEX j ON t (c)"},
		"pk-added-to-clustered":    {t("id int NOT NULL, c int") + "; CREATE CLUSTERED INDEX j ON t (c)", t("id int NOT NULL, c int, CONSTRAINT pk PRIMARY KEY NONCLUSTERED (id)") + "; CREATE CLUSTERED INDEX j ON t (c)"},
		"pk-clustered-changed":     {t("id int NOT NULL, CONSTRAINT pk PRIMARY KEY CLUSTERED (id)"), t("id int NOT NULL, CONSTRAINT pk PRIMARY KEY NONCLUSTERED (id)")},
		"pk-nullable":              {t("id int, c int"), t("id int PRIMARY KEY, c int")},
		"pk-referenced":            {"CREATE TABLE p (id int NOT NULL, k int NOT NULL, CONSTRAINT pk PRIMARY KEY (id)); " + t("id int, c int, CONSTRAINT f FOREIGN KEY (c) REFERENCES p (id)"), "CREATE TABLE p (id int NOT NULL, k int NOT NULL, CONSTRAINT pk PRIMARY KEY (id, k)); " + t("id int, c int")},
		"index-option-removed":     {t("id int") + "; CREATE INDEX i ON t (id) WITH (FILLFACTOR = 10)", t("id int") + "; CREATE INDEX i ON t (id)"},
		"index-filtered":           {t("id int") + "; CREATE INDEX i ON t (id) WHERE ([id]>(1))", t("id int") + "; CREATE INDEX i ON t (id) WHERE ([id]>(1))"},
		"index-filter-changed":     {t("id int") + "; CREATE INDEX i ON t (id) WHERE ([id]>(1))", t("id int") + "; CREATE INDEX i ON t (id) WHERE ([id]>(2))"},
		"index-include-reordered":  {t("id int, a int, b int") + "; CREATE INDEX i ON t (id) INCLUDE (a, b)", t("id int, a int, b int") + "; CREATE INDEX i ON t (id) INCLUDE (b, a)"},
		"default-renamed":          {t("id int CONSTRAINT a DEFAULT 1"), t("id int CONSTRAINT b DEFAULT 1")},
		"refs-added":               {"CREATE TABLE p (id int NOT NULL PRIMARY KEY); CREATE TABLE t (id int)", "CREATE TABLE p (id int NOT NULL PRIMARY KEY); CREATE TABLE t (id int, a int REFERENCES p (id))"},
		"refs-kept":                {"CREATE TABLE p (id int NOT NULL PRIMARY KEY); CREATE TABLE t (id int, a int REFERENCES p (id))", "CREATE TABLE p (id int NOT NULL PRIMARY KEY); CREATE TABLE t (id int, a int REFERENCES p (id), b int)"},
		"refs-removed":             {"CREATE TABLE p (id int NOT NULL PRIMARY KEY); CREATE TABLE t (id int, a int REFERENCES p)", "CREATE TABLE p (id int NOT NULL PRIMARY KEY); CREATE TABLE t (id int, a int)"},
		"refs-one-of-two":          {"CREATE TABLE p (id int NOT NULL PRIMARY KEY); CREATE TABLE t (a int REFERENCES p, b int REFERENCES p)", "CREATE TABLE p (id int NOT NULL PRIMARY KEY); CREATE TABLE t (a int, b int REFERENCES p)"},
		"default-swapped":          {t("id int CONSTRAINT a DEFAULT 1, c int CONSTRAINT b DEFAULT 2"), t("id int CONSTRAINT b DEFAULT 2, c int CONSTRAINT a DEFAULT 1")},
		"default-negative":         {t("id int DEFAULT -1"), t("id int DEFAULT -1, c int")},
		"check-renamed":            {t("id int CONSTRAINT a CHECK ([id]>(1))"), t("id int CONSTRAINT b CHECK ([id]>(1))")},
		"check-plain":              {t("id int CHECK (id > 1)"), t("id int CHECK (id > 1), c int")},
		"check-own":                {t("id int CHECK ([id]>(1))"), t("id int CHECK ([id]>(2)), c int CHECK ([c]>(1))")},
		"check-and":                {t("id int CHECK (id > 1 AND id < 5)"), t("id int CHECK (id > 1 AND id < 5), c int")},
		"check-in":                 {t("id int CHECK (id IN (1, 2))"), t("id int CHECK (id IN (1, 2)), c int")},
		"check-two-columns":        {t("a int, b int CHECK (b > a)"), t("a int, b int CHECK (b > a), c int")},
		"other-schema":             {"CREATE TABLE s.t (id int)", "CREATE TABLE s.t (id int, c int)"},
		"other-schema-fk":          {"CREATE TABLE s.p (id int PRIMARY KEY); CREATE TABLE s.t (id int, CONSTRAINT f FOREIGN KEY (id) REFERENCES s.p (id))", "CREATE TABLE s.p (id int PRIMARY KEY); CREATE TABLE s.t (id int, c int, CONSTRAINT f FOREIGN KEY (id) REFERENCES s.p (id))"},
		"fk-columns-changed":       {"CREATE TABLE p (id int PRIMARY KEY); " + t("a int, b int, CONSTRAINT f FOREIGN KEY (a) REFERENCES p (id)"), "CREATE TABLE p (id int PRIMARY KEY); " + t("a int, b int, CONSTRAINT f FOREIGN KEY (b) REFERENCES p (id)")},
		"fk-self":                  {t("id int NOT NULL PRIMARY KEY, a int, CONSTRAINT f FOREIGN KEY (a) REFERENCES t (id)"), t("id int NOT NULL PRIMARY KEY, a int, b int, CONSTRAINT f FOREIGN KEY (a) REFERENCES t (id)")},
		"view-comment":             {t("id int") + "; CREATE VIEW v AS SELECT id -- the id\n FROM t", t("id int, c int") + "; CREATE VIEW v AS SELECT id -- the id\n FROM t"},
		"view-literal-case":        {t("id varchar(9)") + "; CREATE VIEW v AS SELECT id FROM t WHERE id = 'A'", t("id varchar(9)") + "; CREATE VIEW v AS SELECT id FROM t WHERE id = 'a'"},
		"view-literal-spaces":      {t("id varchar(9)") + "; CREATE VIEW v AS SELECT id FROM t WHERE id = 'a  b'", t("id varchar(9)") + "; CREATE VIEW v AS SELECT id FROM t WHERE id = 'a b'"},
		"view-of-view":             {t("id int") + "; CREATE VIEW v AS SELECT id FROM t; CREATE VIEW w AS SELECT id FROM v", t("id int") + "; CREATE VIEW v AS SELECT id FROM t WHERE id > 1; CREATE VIEW w AS SELECT id FROM v"},
		"trigger-dropped":          {t("id int") + "; CREATE TRIGGER g ON t AFTER INSERT AS DELETE FROM t WHERE id = 1", t("id int")},
		"trigger-literal-case":     {t("id varchar(9)") + "; CREATE TRIGGER g ON t AFTER INSERT AS DELETE FROM t WHERE id = 'A'", t("id varchar(9)") + "; CREATE TRIGGER g ON t AFTER INSERT AS DELETE FROM t WHERE id = 'a'"},
		"trigger-two-statements":   {t("id int"), t("id int") + "; CREATE TRIGGER g ON t AFTER INSERT AS DELETE FROM t WHERE id = 1 DELETE FROM t WHERE id = 2"},
		"trigger-moved":            {t("id int") + "; CREATE TABLE u (id int); CREATE TRIGGER g ON t AFTER INSERT AS DELETE FROM t WHERE id = 1", t("id int") + "; CREATE TABLE u (id int); CREATE TRIGGER g ON u AFTER INSERT AS DELETE FROM t WHERE id = 1"},
		"index-renamed":            {t("id int") + "; CREATE INDEX i ON t (id)", t("id int") + "; CREATE INDEX j ON t (id)"},
		"index-unique-changed":     {t("id int") + "; CREATE INDEX i ON t (id)", t("id int") + "; CREATE UNIQUE INDEX i ON t (id)"},
		"case-of-name":             {t("Id int") + "; CREATE INDEX I ON t (Id)", t("id int") + "; CREATE INDEX i ON t (id)"},
	}
}
