From b75efdca5956649aeca4a74cfd5d02a2f0c9d283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:14 +0000
Subject: [PATCH 01/86] fix: report a failed commit instead of exiting
 successfully

---
 adapter/database.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/adapter/database.go b/adapter/database.go
index 3cd6755..bb2e6ec 100644
--- a/adapter/database.go
+++ b/adapter/database.go
@@ -74,6 +74,5 @@ func RunDDLs(d Database, ddls []string, skipDrop bool) error {
 			return err
 		}
 	}
-	transaction.Commit()
-	return nil
+	return transaction.Commit()
 }
-- 
2.43.0


From dcd35b0b3236d6eb67daa89f42730ad2adb40440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:14 +0000
Subject: [PATCH 02/86] fix: sqlite3def ignored tables whose name starts with
 sqlite but not sqlite_

---
 adapter/sqlite3/sqlite3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/sqlite3/sqlite3.go b/adapter/sqlite3/sqlite3.go
index b33094a..dd33ed2 100644
--- a/adapter/sqlite3/sqlite3.go
+++ b/adapter/sqlite3/sqlite3.go
@@ -26,7 +26,7 @@ func NewDatabase(config adapter.Config) (adapter.Database, error) {
 
 func (d *Sqlite3Database) TableNames() ([]string, error) {
 	rows, err := d.db.Query(
-		`select tbl_name from sqlite_master where type = 'table' and tbl_name not like 'sqlite_%'`,
+		`select tbl_name from sqlite_master where type = 'table' and tbl_name not like 'sqlite\_%' escape '\'`,
 	)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 73ec93fcdd13d6fcf90ba6ffc80e8733deb8d4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:14 +0000
Subject: [PATCH 03/86] fix: panic on MySQL version comments without content

---
 sqlparser/comments.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlparser/comments.go b/sqlparser/comments.go
index a0f7f1b..7270e16 100644
--- a/sqlparser/comments.go
+++ b/sqlparser/comments.go
@@ -170,6 +170,10 @@ func ExtractMysqlComment(sql string) (version string, innerSQL string) {
 		digitCount++
 		return !unicode.IsDigit(c) || digitCount == 6
 	})
+	if endOfVersionIndex == -1 {
+		// Nothing but a version, e.g. /*!*/ or /*!50708*/
+		return sql, ""
+	}
 	version = sql[0:endOfVersionIndex]
 	innerSQL = strings.TrimFunc(sql[endOfVersionIndex:], unicode.IsSpace)
 
-- 
2.43.0


From 539e5b356aee1028e6ba521433c370d9d485f677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:14 +0000
Subject: [PATCH 04/86] fix: panic when looking for directives in comments
 shorter than the preamble

---
 sqlparser/comments.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlparser/comments.go b/sqlparser/comments.go
index 7270e16..87065ca 100644
--- a/sqlparser/comments.go
+++ b/sqlparser/comments.go
@@ -201,7 +201,7 @@ func ExtractCommentDirectives(comments Comments) CommentDirectives {
 
 	for _, comment := range comments {
 		commentStr := string(comment)
-		if commentStr[0:5] != commentDirectivePreamble {
+		if !strings.HasPrefix(commentStr, commentDirectivePreamble) {
 			continue
 		}
 
-- 
2.43.0


From bb0d9e97c90eb77001469228544607d2430906a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 05/86] fix: default values of added or altered columns lost
 quotes, precision or failed for booleans

---
 schema/generator.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 2f4421f..0f8260d 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -336,7 +336,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP DEFAULT", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name)))
 					} else {
 						// set
-						definition, err := generateDefaultDefinition(*desiredColumn.defaultDef.value)
+						definition, err := g.generateDefaultDefinition(*desiredColumn.defaultDef.value)
 						if err != nil {
 							return ddls, err
 						}
@@ -405,7 +405,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					}
 					if desiredColumn.defaultDef != nil {
 						// set
-						definition, err := generateDefaultDefinition(*desiredColumn.defaultDef.value)
+						definition, err := g.generateDefaultDefinition(*desiredColumn.defaultDef.value)
 						if err != nil {
 							return ddls, err
 						}
@@ -805,7 +805,7 @@ func (g *Generator) generateColumnDefinition(column Column, enableUnique bool) (
 	}
 
 	if column.defaultDef != nil && column.defaultDef.value != nil {
-		def, err := generateDefaultDefinition(*column.defaultDef.value)
+		def, err := g.generateDefaultDefinition(*column.defaultDef.value)
 		if err != nil {
 			return "", fmt.Errorf("%s in column: %#v", err.Error(), column)
 		}
@@ -1054,6 +1054,13 @@ func (g *Generator) escapeSQLName(name string) string {
 	}
 }
 
+func (g *Generator) escapeString(str string) string {
+	if g.mode == GeneratorModeMysql {
+		str = strings.Replace(str, "\\", "\\\\", -1)
+	}
+	return "'" + strings.Replace(str, "'", "''", -1) + "'"
+}
+
 func (g *Generator) notNull(column Column) bool {
 	if column.notNull == nil {
 		switch g.mode {
@@ -1607,20 +1614,22 @@ func generateSequenceClause(sequence *Sequence) string {
 	return strings.TrimSpace(ddl)
 }
 
-func generateDefaultDefinition(defaultVal Value) (string, error) {
+func (g *Generator) generateDefaultDefinition(defaultVal Value) (string, error) {
 	switch defaultVal.valueType {
 	case ValueTypeStr:
-		return fmt.Sprintf("DEFAULT '%s'", defaultVal.strVal), nil
+		return fmt.Sprintf("DEFAULT %s", g.escapeString(defaultVal.strVal)), nil
 	case ValueTypeInt:
-		return fmt.Sprintf("DEFAULT %d", defaultVal.intVal), nil
+		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeFloat:
-		return fmt.Sprintf("DEFAULT %f", defaultVal.floatVal), nil
+		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeBit:
 		if defaultVal.bitVal {
 			return "DEFAULT b'1'", nil
 		} else {
 			return "DEFAULT b'0'", nil
 		}
+	case ValueTypeBool:
+		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeValArg: // NULL, CURRENT_TIMESTAMP, ...
 		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	default:
-- 
2.43.0


From fda92f7d877d6398277d169ed92b5e1865fd6ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 06/86] fix: quote characters in names were not escaped

---
 adapter/mysql/mysql.go | 3 ++-
 schema/generator.go    | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index 7f5709d..ae4aa68 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -3,6 +3,7 @@ package mysql
 import (
 	"database/sql"
 	"fmt"
+	"strings"
 
 	driver "github.com/go-sql-driver/mysql"
 	"github.com/k0kubun/sqldef/adapter"
@@ -46,7 +47,7 @@ func (d *MysqlDatabase) TableNames() ([]string, error) {
 
 func (d *MysqlDatabase) DumpTableDDL(table string) (string, error) {
 	var ddl string
-	sql := fmt.Sprintf("show create table `%s`;", table) // TODO: escape table name
+	sql := fmt.Sprintf("show create table `%s`;", strings.Replace(table, "`", "``", -1))
 
 	err := d.db.QueryRow(sql).Scan(&table, &ddl)
 	if err != nil {
diff --git a/schema/generator.go b/schema/generator.go
index 0f8260d..00cd3bd 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1046,11 +1046,11 @@ func (g *Generator) escapeTableName(name string) string {
 func (g *Generator) escapeSQLName(name string) string {
 	switch g.mode {
 	case GeneratorModePostgres:
-		return fmt.Sprintf("\"%s\"", name)
+		return fmt.Sprintf("\"%s\"", strings.Replace(name, "\"", "\"\"", -1))
 	case GeneratorModeMssql:
-		return fmt.Sprintf("[%s]", name)
+		return fmt.Sprintf("[%s]", strings.Replace(name, "]", "]]", -1))
 	default:
-		return fmt.Sprintf("`%s`", name)
+		return fmt.Sprintf("`%s`", strings.Replace(name, "`", "``", -1))
 	}
 }
 
-- 
2.43.0


From eb1f89711513ca4ee064e23685a089046c7c00a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 07/86] fix: semicolons in literals and comments, and comments
 after the last statement, broke the schema file

---
 schema/parser.go | 65 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 58 insertions(+), 7 deletions(-)

diff --git a/schema/parser.go b/schema/parser.go
index d5eac91..f017a26 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -425,15 +425,9 @@ func parseDDLs(mode GeneratorMode, str string) ([]DDL, error) {
 	re := regexp.MustCompilePOSIX("^--.*")
 	str = re.ReplaceAllString(str, "")
 
-	ddls := strings.Split(str, ";")
 	result := []DDL{}
 
-	for _, ddl := range ddls {
-		ddl = strings.TrimSpace(ddl) // TODO: trim trailing comment as well, or ignore it by parser somehow?
-		if len(ddl) == 0 {
-			continue
-		}
-
+	for _, ddl := range splitDDLs(mode, str) {
 		parsed, err := parseDDL(mode, ddl)
 		if err != nil {
 			return result, err
@@ -443,6 +437,63 @@ func parseDDLs(mode GeneratorMode, str string) ([]DDL, error) {
 	return result, nil
 }
 
+// Split `str` by `;` except for the ones in quotes or comments, and omit blank DDLs.
+func splitDDLs(mode GeneratorMode, str string) []string {
+	ddls := []string{}
+	start := 0
+	blank := true // true while there's only spaces and comments
+	flush := func(end int) {
+		if !blank {
+			ddls = append(ddls, strings.TrimSpace(str[start:end]))
+		}
+		start = end + 1
+		blank = true
+	}
+	// Return the position of the last character of what is terminated by `terminator`.
+	skipTo := func(from int, terminator string) int {
+		if from >= len(str) {
+			return len(str) - 1
+		}
+		index := strings.Index(str[from:], terminator)
+		if index == -1 {
+			return len(str) - 1
+		}
+		return from + index + len(terminator) - 1
+	}
+
+	for i := 0; i < len(str); i++ {
+		switch ch := str[i]; {
+		case ch == ';':
+			flush(i)
+		case ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n':
+			// noop
+		case ch == '#' || strings.HasPrefix(str[i:], "--") || strings.HasPrefix(str[i:], "//"):
+			i = skipTo(i, "\n")
+		case strings.HasPrefix(str[i:], "/*"):
+			if strings.HasPrefix(str[i:], "/*!") || !strings.Contains(str[i+2:], "*/") {
+				blank = false // let the parser handle or refuse it
+			}
+			i = skipTo(i+2, "*/")
+		case ch == '\'' || ch == '"' || ch == '`' && mode != GeneratorModePostgres:
+			// An escaped quote (`''`) is handled as two adjacent strings
+			blank = false
+			backslash := mode == GeneratorModeMysql && ch != '`'
+			for i++; i < len(str) && str[i] != ch; i++ {
+				if backslash && str[i] == '\\' {
+					i++
+				}
+			}
+		case ch == '[' && mode == GeneratorModeMssql:
+			blank = false
+			i = skipTo(i+1, "]")
+		default:
+			blank = false
+		}
+	}
+	flush(len(str))
+	return ddls
+}
+
 // Replace pseudo collation "binary" with "{charset}_bin"
 func normalizeCollate(collate string, table sqlparser.TableSpec) string {
 	if collate == "binary" {
-- 
2.43.0


From ecbf0da153745b5c4f31c1475edada97dbe83a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 08/86] fix: index options crashed on USING, lost quotes of
 comments and all but the first option

---
 schema/generator.go | 20 ++++++++++++++++----
 schema/parser.go    | 11 +++++++++--
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 00cd3bd..487274a 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -942,14 +942,26 @@ func (g *Generator) generateIndexOptionDefinition(indexOptions []IndexOption) st
 	if len(indexOptions) > 0 {
 		switch g.mode {
 		case GeneratorModeMysql:
-			indexOption := indexOptions[0]
-			if indexOption.optionName == "parser" {
-				indexOption.optionName = "WITH " + indexOption.optionName
+			for _, indexOption := range indexOptions {
+				if indexOption.value == nil {
+					continue
+				}
+				optionName := indexOption.optionName
+				if optionName == "parser" {
+					optionName = "WITH " + optionName
+				}
+				optionValue := string(indexOption.value.raw)
+				if strings.ToLower(optionName) == "comment" {
+					optionValue = fmt.Sprintf("'%s'", g.escapeString(optionValue))
+				}
+				optionDefinition += fmt.Sprintf(" %s %s", optionName, optionValue)
 			}
-			optionDefinition = fmt.Sprintf(" %s %s", indexOption.optionName, string(indexOption.value.raw))
 		case GeneratorModeMssql:
 			options := []string{}
 			for _, indexOption := range indexOptions {
+				if indexOption.value == nil {
+					continue
+				}
 				var optionValue string
 				switch indexOption.value.valueType {
 				case ValueTypeBool:
diff --git a/schema/parser.go b/schema/parser.go
index f017a26..e85a119 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -76,6 +76,13 @@ func parseValue(val *sqlparser.SQLVal) *Value {
 	return &ret
 }
 
+func parseIndexOptionValue(option *sqlparser.IndexOption) *Value {
+	if option.Value == nil && option.Using != "" {
+		return &Value{valueType: ValueTypeStr, strVal: option.Using, raw: []byte(option.Using)}
+	}
+	return parseValue(option.Value)
+}
+
 // Assume an integer length. Maybe useful only for index lengths.
 // TODO: Change IndexColumn.Length in parser.y to integer in the first place
 func parseLength(val *sqlparser.SQLVal) (*int, error) {
@@ -153,7 +160,7 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 				indexOptions,
 				IndexOption{
 					optionName: option.Name,
-					value:      parseValue(option.Value),
+					value:      parseIndexOptionValue(option),
 				},
 			)
 		}
@@ -251,7 +258,7 @@ func parseIndex(stmt *sqlparser.DDL) (Index, error) {
 			indexOptions,
 			IndexOption{
 				optionName: option.Name,
-				value:      parseValue(option.Value),
+				value:      parseIndexOptionValue(option),
 			},
 		)
 	}
-- 
2.43.0


From b05d29b0eee7419a30b7e6f11cb0edd86482a216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 09/86] fix: a change of a default value to a prefix of the
 current one was missed

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 487274a..4ca423b 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1336,7 +1336,7 @@ func areSameValue(current, desired *Value) bool {
 	// NOTE: -1 can be changed to '-1' in show create table and valueType is not reliable
 	currentRaw := string(current.raw)
 	desiredRaw := string(desired.raw)
-	if desired.valueType == ValueTypeFloat && len(currentRaw) > len(desiredRaw) {
+	if desired.valueType == ValueTypeFloat && len(currentRaw) > len(desiredRaw) && strings.Trim(currentRaw[len(desiredRaw):], "0") == "" {
 		// Round "0.00" to "0.0" for comparison with desired.
 		// Ideally we should do this seeing precision in a data type.
 		currentRaw = currentRaw[0:len(desiredRaw)]
-- 
2.43.0


From 23abeaca76c4bd4aa9a9338adf93aef189d49b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 10/86] fix: printing a boolean literal of a column or index
 option panicked

---
 sqlparser/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 299e0ec..ba35712 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -2493,7 +2493,7 @@ func (node *SQLVal) Format(buf *TrackedBuffer) {
 	case ValArg:
 		buf.WriteArg(string(node.Val))
 	case ValBool:
-		buf.Myprintf("%t", node.Val)
+		buf.Myprintf("%s", []byte(node.Val))
 	default:
 		panic("unexpected")
 	}
-- 
2.43.0


From dc2a23dc2171197ed1c6fdf0b6088a062786a32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 11/86] fix: negating a negative literal was printed as a
 comment

---
 sqlparser/ast.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index ba35712..56ddb40 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -2732,7 +2732,7 @@ const (
 
 // Format formats the node.
 func (node *UnaryExpr) Format(buf *TrackedBuffer) {
-	if _, unary := node.Expr.(*UnaryExpr); unary {
+	if _, unary := node.Expr.(*UnaryExpr); unary || node.Operator == UMinusStr && startsWithMinus(node.Expr) {
 		buf.Myprintf("%s %v", node.Operator, node.Expr)
 		return
 	}
@@ -2753,6 +2753,18 @@ func (node *UnaryExpr) replace(from, to Expr) bool {
 	return replaceExprs(from, to, &node.Expr)
 }
 
+// startsWithMinus says whether the text of an operand of a unary operator
+// starts with a minus sign, which would form a comment after another one.
+func startsWithMinus(expr Expr) bool {
+	switch expr := expr.(type) {
+	case *SQLVal:
+		return (expr.Type == IntVal || expr.Type == FloatVal || expr.Type == HexNum) && len(expr.Val) > 0 && expr.Val[0] == '-'
+	case *CollateExpr:
+		return startsWithMinus(expr.Expr)
+	}
+	return false
+}
+
 // IntervalExpr represents a date-time INTERVAL expression.
 type IntervalExpr struct {
 	Expr Expr
-- 
2.43.0


From 41a2d44c3a14c742fa3191138d2a657a11a5e812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 12/86] fix: string literals in ENUM, LIKE, SEPARATOR and table
 options were printed without escaping

---
 sqlparser/ast.go    |  6 +++---
 sqlparser/parser.go | 10 +++++-----
 sqlparser/parser.y  | 10 +++++-----
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 56ddb40..6b3f3de 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -845,7 +845,7 @@ func (ts *TableSpec) Format(buf *TrackedBuffer) {
 		buf.Myprintf(",\n\t%v", idx)
 	}
 
-	buf.Myprintf("\n)%s", strings.Replace(ts.Options, ", ", ",\n  ", -1))
+	buf.Myprintf("\n)%s", ts.Options)
 }
 
 // AddColumn appends the given column to the list in the spec
@@ -1479,8 +1479,8 @@ type ShowFilter struct {
 
 // Format formats the node.
 func (node *ShowFilter) Format(buf *TrackedBuffer) {
-	if node.Like != "" {
-		buf.Myprintf("like '%s'", node.Like)
+	if node.Filter == nil {
+		buf.Myprintf("like %v", NewStrVal([]byte(node.Like)))
 	} else {
 		buf.Myprintf("where %v", node.Filter)
 	}
diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index afa3a4d..9daa89d 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -4834,13 +4834,13 @@ yydefault:
 //line sqlparser/parser.y:1468
 		{
 			yyVAL.strs = make([]string, 0, 4)
-			yyVAL.strs = append(yyVAL.strs, "'"+string(yyDollar[1].bytes)+"'")
+			yyVAL.strs = append(yyVAL.strs, String(NewStrVal(yyDollar[1].bytes)))
 		}
 	case 242:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:1473
 		{
-			yyVAL.strs = append(yyDollar[1].strs, "'"+string(yyDollar[3].bytes)+"'")
+			yyVAL.strs = append(yyDollar[1].strs, String(NewStrVal(yyDollar[3].bytes)))
 		}
 	case 243:
 		yyDollar = yyS[yypt-0 : yypt+1]
@@ -5383,7 +5383,7 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:1896
 		{
-			yyVAL.str = string(yyDollar[1].str) + ", " + string(yyDollar[3].str)
+			yyVAL.str = string(yyDollar[1].str) + ",\n  " + string(yyDollar[3].str)
 		}
 	case 329:
 		yyDollar = yyS[yypt-1 : yypt+1]
@@ -5413,7 +5413,7 @@ yydefault:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:1922
 		{
-			yyVAL.str = "'" + string(yyDollar[1].bytes) + "'"
+			yyVAL.str = String(NewStrVal(yyDollar[1].bytes))
 		}
 	case 334:
 		yyDollar = yyS[yypt-1 : yypt+1]
@@ -7217,7 +7217,7 @@ yydefault:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:3342
 		{
-			yyVAL.str = " separator '" + string(yyDollar[2].bytes) + "'"
+			yyVAL.str = " separator " + String(NewStrVal(yyDollar[2].bytes))
 		}
 	case 651:
 		yyDollar = yyS[yypt-1 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index b148377..baab91a 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1467,11 +1467,11 @@ enum_values:
   STRING
   {
     $$ = make([]string, 0, 4)
-    $$ = append($$, "'" + string($1) + "'")
+    $$ = append($$, String(NewStrVal($1)))
   }
 | enum_values ',' STRING
   {
-    $$ = append($1, "'" + string($3) + "'")
+    $$ = append($1, String(NewStrVal($3)))
   }
 
 length_opt:
@@ -1894,7 +1894,7 @@ table_option_list:
   }
 | table_option_list ',' table_option
   {
-    $$ = string($1) + ", " + string($3)
+    $$ = string($1) + ",\n  " + string($3)
   }
 
 // rather than explicitly parsing the various keywords for table options,
@@ -1920,7 +1920,7 @@ table_opt_value:
   }
 | STRING
   {
-    $$ = "'" + string($1) + "'"
+    $$ = String(NewStrVal($1))
   }
 | INTEGRAL
   {
@@ -3340,7 +3340,7 @@ separator_opt:
   }
 | SEPARATOR STRING
   {
-    $$ = " separator '"+string($2)+"'"
+    $$ = " separator " + String(NewStrVal($2))
   }
 
 when_expression_list:
-- 
2.43.0


From 334c4ebb788aff306adc6679adcd50e776eec6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 13/86] fix: names of functions, collations, databases and
 non-ASCII names were printed so that they cannot be read back

---
 sqlparser/ast.go | 63 +++++++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 6b3f3de..0f248e2 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -636,13 +636,13 @@ type DBDDL struct {
 func (node *DBDDL) Format(buf *TrackedBuffer) {
 	switch node.Action {
 	case CreateStr:
-		buf.WriteString(fmt.Sprintf("%s database %s", node.Action, node.DBName))
+		buf.Myprintf("%s database %v", node.Action, NewTableIdent(node.DBName))
 	case DropStr:
 		exists := ""
 		if node.IfExists {
 			exists = " if exists"
 		}
-		buf.WriteString(fmt.Sprintf("%s database%s %v", node.Action, exists, node.DBName))
+		buf.Myprintf("%s database%s %v", node.Action, exists, NewTableIdent(node.DBName))
 	}
 }
 
@@ -1431,9 +1431,9 @@ func (node *Show) Format(buf *TrackedBuffer) {
 		opt := node.ShowTablesOpt
 		if opt.DbName != "" {
 			if opt.Filter != nil {
-				buf.Myprintf("show %s%stables from %s %v", opt.Extended, opt.Full, opt.DbName, opt.Filter)
+				buf.Myprintf("show %s%stables from %v %v", opt.Extended, opt.Full, NewTableIdent(opt.DbName), opt.Filter)
 			} else {
-				buf.Myprintf("show %s%stables from %s", opt.Extended, opt.Full, opt.DbName)
+				buf.Myprintf("show %s%stables from %v", opt.Extended, opt.Full, NewTableIdent(opt.DbName))
 			}
 		} else {
 			if opt.Filter != nil {
@@ -2773,7 +2773,8 @@ type IntervalExpr struct {
 
 // Format formats the node.
 func (node *IntervalExpr) Format(buf *TrackedBuffer) {
-	buf.Myprintf("interval %v %s", node.Expr, node.Unit)
+	buf.Myprintf("interval %v ", node.Expr)
+	formatRawID(buf, node.Unit)
 }
 
 func (node *IntervalExpr) walkSubtree(visit Visit) error {
@@ -2798,7 +2799,7 @@ type CollateExpr struct {
 
 // Format formats the node.
 func (node *CollateExpr) Format(buf *TrackedBuffer) {
-	buf.Myprintf("%v collate %s", node.Expr, node.Charset)
+	buf.Myprintf("%v collate %v", node.Expr, NewTableIdent(node.Charset))
 }
 
 func (node *CollateExpr) walkSubtree(visit Visit) error {
@@ -2835,7 +2836,8 @@ func (node *FuncExpr) Format(buf *TrackedBuffer) {
 	// Function names should not be back-quoted even
 	// if they match a reserved word. So, print the
 	// name as is.
-	buf.Myprintf("%s(%s%v)", node.Name.String(), distinct, node.Exprs)
+	formatRawID(buf, node.Name.String())
+	buf.Myprintf("(%s%v)", distinct, node.Exprs)
 }
 
 func (node *FuncExpr) walkSubtree(visit Visit) error {
@@ -3023,7 +3025,7 @@ type ConvertUsingExpr struct {
 
 // Format formats the node.
 func (node *ConvertUsingExpr) Format(buf *TrackedBuffer) {
-	buf.Myprintf("convert(%v using %s)", node.Expr, node.Type)
+	buf.Myprintf("convert(%v using %v)", node.Expr, NewTableIdent(node.Type))
 }
 
 func (node *ConvertUsingExpr) walkSubtree(visit Visit) error {
@@ -3065,7 +3067,8 @@ func (node *ConvertType) Format(buf *TrackedBuffer) {
 		buf.Myprintf(")")
 	}
 	if node.Charset != "" {
-		buf.Myprintf("%s %s", node.Operator, node.Charset)
+		buf.Myprintf("%s ", node.Operator)
+		formatRawID(buf, node.Charset)
 	}
 }
 
@@ -3172,7 +3175,7 @@ type Default struct {
 func (node *Default) Format(buf *TrackedBuffer) {
 	buf.Myprintf("default")
 	if node.ColName != "" {
-		buf.Myprintf("(%s)", node.ColName)
+		buf.Myprintf("(%v)", NewTableIdent(node.ColName))
 	}
 }
 
@@ -3411,7 +3414,8 @@ func (node *SetExpr) Format(buf *TrackedBuffer) {
 	if node.Name.EqualString("charset") || node.Name.EqualString("names") {
 		buf.Myprintf("%s %v", node.Name.String(), node.Expr)
 	} else {
-		buf.Myprintf("%s = %v", node.Name.String(), node.Expr)
+		formatRawID(buf, node.Name.String())
+		buf.Myprintf(" = %v", node.Expr)
 	}
 }
 
@@ -3582,16 +3586,7 @@ func (node *TableIdent) UnmarshalJSON(b []byte) error {
 
 // Backtick produces a backticked literal given an input string.
 func Backtick(in string) string {
-	var buf bytes.Buffer
-	buf.WriteByte('`')
-	for _, c := range in {
-		buf.WriteRune(c)
-		if c == '`' {
-			buf.WriteByte('`')
-		}
-	}
-	buf.WriteByte('`')
-	return buf.String()
+	return "`" + strings.Replace(in, "`", "``", -1) + "`"
 }
 
 func formatID(buf *TrackedBuffer, original, lowered string) {
@@ -3600,9 +3595,11 @@ func formatID(buf *TrackedBuffer, original, lowered string) {
 		isDbSystemVariable = true
 	}
 
-	for i, c := range original {
-		if !isLetter(uint16(c)) && (!isDbSystemVariable || !isCarat(uint16(c))) {
-			if i == 0 || !isDigit(uint16(c)) {
+	// Look at bytes like the tokenizer does: a name may hold any of them.
+	for i := 0; i < len(original); i++ {
+		c := uint16(original[i])
+		if !isLetter(c) && (!isDbSystemVariable || !isCarat(c)) {
+			if i == 0 || !isDigit(c) {
 				goto mustEscape
 			}
 		}
@@ -3614,14 +3611,20 @@ func formatID(buf *TrackedBuffer, original, lowered string) {
 	return
 
 mustEscape:
-	buf.WriteByte('`')
-	for _, c := range original {
-		buf.WriteRune(c)
-		if c == '`' {
-			buf.WriteByte('`')
+	buf.WriteString(Backtick(original))
+}
+
+// formatRawID writes a name that is not quoted even if it is a keyword
+// (functions, units, variables), unless it could not be read back.
+func formatRawID(buf *TrackedBuffer, name string) {
+	for i := 0; i < len(name); i++ {
+		c := uint16(name[i])
+		if !isLetter(c) && (i == 0 || !isDigit(c)) {
+			formatID(buf, name, strings.ToLower(name))
+			return
 		}
 	}
-	buf.WriteByte('`')
+	buf.WriteString(name)
 }
 
 func compliantName(in string) string {
-- 
2.43.0


From 4be266f3cb4a2ef81a927ed191f62d5b82c04e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 14/86] fix: ORDER BY and LIMIT of a UNION were not visited, so
 their literals stayed in redacted queries

---
 sqlparser/ast.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 0f248e2..772ec17 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -435,6 +435,8 @@ func (node *Union) walkSubtree(visit Visit) error {
 		visit,
 		node.Left,
 		node.Right,
+		node.OrderBy,
+		node.Limit,
 	)
 }
 
-- 
2.43.0


From f6e15e342876c58e77d36cc73edf4cd1bdf61f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 15/86] fix: Preview did not recognise statements whose first
 word is not followed by white space

---
 sqlparser/analyzer.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sqlparser/analyzer.go b/sqlparser/analyzer.go
index ea228f7..358fa05 100644
--- a/sqlparser/analyzer.go
+++ b/sqlparser/analyzer.go
@@ -53,11 +53,10 @@ const (
 func Preview(sql string) int {
 	trimmed := StripLeadingComments(sql)
 
-	firstWord := trimmed
-	if end := strings.IndexFunc(trimmed, unicode.IsSpace); end != -1 {
-		firstWord = trimmed[:end]
+	firstWord := strings.TrimLeftFunc(trimmed, func(r rune) bool { return !unicode.IsLetter(r) })
+	if end := strings.IndexFunc(firstWord, func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsDigit(r) && r != '_' }); end != -1 {
+		firstWord = firstWord[:end]
 	}
-	firstWord = strings.TrimLeftFunc(firstWord, func(r rune) bool { return !unicode.IsLetter(r) })
 	// Comparison is done in order of priority.
 	loweredFirstWord := strings.ToLower(firstWord)
 	switch loweredFirstWord {
-- 
2.43.0


From e163b4de7f61807c1846cc89f819470cf1066ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:48 +0000
Subject: [PATCH 16/86] fix: a reader that returns no bytes ended the text, and
 a failing one made a cut statement complete

---
 sqlparser/ast.go   | 10 +++++++++-
 sqlparser/token.go | 17 +++++++++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 772ec17..2f2ca78 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -85,12 +85,20 @@ func ParseNext(tokenizer *Tokenizer) (Statement, error) {
 		tokenizer.skipBlank()
 	}
 	if tokenizer.lastChar == eofChar {
+		if tokenizer.readErr != nil {
+			return nil, tokenizer.readErr
+		}
 		return nil, io.EOF
 	}
 
 	tokenizer.reset()
 	tokenizer.multi = true
-	if yyParse(tokenizer) != 0 {
+	res := yyParse(tokenizer)
+	if tokenizer.readErr != nil && tokenizer.lastChar == eofChar {
+		// The text ends where reading failed, not where the statement does.
+		return nil, tokenizer.readErr
+	}
+	if res != 0 {
 		if tokenizer.partialDDL != nil {
 			tokenizer.ParseTree = tokenizer.partialDDL
 			return tokenizer.ParseTree, nil
diff --git a/sqlparser/token.go b/sqlparser/token.go
index fb64320..5e5f117 100644
--- a/sqlparser/token.go
+++ b/sqlparser/token.go
@@ -30,6 +30,7 @@ type ParserMode int
 
 const (
 	defaultBufSize = 4096
+	maxEmptyReads  = 100
 	eofChar        = 0x100
 
 	ParserModeMysql = ParserMode(iota)
@@ -48,6 +49,7 @@ type Tokenizer struct {
 	Position       int
 	lastToken      []byte
 	LastError      error
+	readErr        error // failure of InStream
 	posVarIndex    int
 	ParseTree      Statement
 	partialDDL     *DDL
@@ -974,11 +976,22 @@ func (tkn *Tokenizer) consumeNext(buffer *bytes2.Buffer) {
 
 func (tkn *Tokenizer) next() {
 	if tkn.bufPos >= tkn.bufSize && tkn.InStream != nil {
-		// Try and refill the buffer
+		// Try and refill the buffer. A reader may return no bytes without
+		// having reached the end.
 		var err error
 		tkn.bufPos = 0
-		if tkn.bufSize, err = tkn.InStream.Read(tkn.buf); err != io.EOF && err != nil {
+		tkn.bufSize = 0
+		for i := 0; tkn.bufSize == 0 && err == nil; i++ {
+			if i == maxEmptyReads {
+				err = io.ErrNoProgress
+			} else {
+				tkn.bufSize, err = tkn.InStream.Read(tkn.buf)
+			}
+		}
+		if err != io.EOF && err != nil {
 			tkn.LastError = err
+			tkn.readErr = err
+			tkn.InStream = nil
 		}
 	}
 
-- 
2.43.0


From 078720db2a6d0d8901fe47e153943dc648985d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 17/86] fix: double quotes were read as names instead of
 strings when the text comes from a reader

---
 sqlparser/token.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlparser/token.go b/sqlparser/token.go
index 5e5f117..bedac1d 100644
--- a/sqlparser/token.go
+++ b/sqlparser/token.go
@@ -80,6 +80,7 @@ func NewTokenizer(r io.Reader) *Tokenizer {
 	return &Tokenizer{
 		InStream: r,
 		buf:      make([]byte, defaultBufSize),
+		mode:     ParserModeMysql,
 	}
 }
 
-- 
2.43.0


From a2b8e123cb8732eb3e9cc550c5f4d39eb8ec6e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 18/86] fix: NOT FOR REPLICATION without IDENTITY crashed the
 parser

---
 sqlparser/parser.go | 4 ++++
 sqlparser/parser.y  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index 9daa89d..95f9ea2 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -4218,6 +4218,10 @@ yydefault:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line sqlparser/parser.y:1017
 		{
+			if yyDollar[1].columnType.Identity == nil {
+				yylex.Error("NOT FOR REPLICATION needs IDENTITY")
+				return 1
+			}
 			yyDollar[1].columnType.Identity.NotForReplication = true
 			yyVAL.columnType = yyDollar[1].columnType
 		}
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index baab91a..191d8a5 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1015,6 +1015,10 @@ column_definition_type:
 // for MSSQL: IDENTITY(N,M) NOT FOR REPLICATION
 | column_definition_type NOT FOR REPLICATION
   {
+    if $1.Identity == nil {
+      yylex.Error("NOT FOR REPLICATION needs IDENTITY")
+      return 1
+    }
     $1.Identity.NotForReplication = true
     $$ = $1
   }
-- 
2.43.0


From f54328a29ffb3d95244ac667736bf311fcca339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 19/86] fix: printing a type cast without operand panicked

---
 sqlparser/ast.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 2f2ca78..2075275 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -3009,6 +3009,10 @@ type ConvertExpr struct {
 
 // Format formats the node.
 func (node *ConvertExpr) Format(buf *TrackedBuffer) {
+	if node.Expr == nil {
+		buf.Myprintf("::%v", node.Type)
+		return
+	}
 	buf.Myprintf("convert(%v, %v)", node.Expr, node.Type)
 }
 
-- 
2.43.0


From 6c601ad62449f2a0061683a8561745b6a46b6393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 20/86] fix: StripLeadingComments and Preview did not know #
 and // comments and /*/ ... */

---
 sqlparser/comments.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/sqlparser/comments.go b/sqlparser/comments.go
index 87065ca..a80007c 100644
--- a/sqlparser/comments.go
+++ b/sqlparser/comments.go
@@ -131,17 +131,26 @@ func StripLeadingComments(sql string) string {
 	for hasCommentPrefix(sql) {
 		switch sql[0] {
 		case '/':
+			if sql[1] == '/' {
+				// Single line comment
+				index := strings.Index(sql, "\n")
+				if index == -1 {
+					return sql
+				}
+				sql = sql[index+1:]
+				break
+			}
 			// Multi line comment
-			index := strings.Index(sql, "*/")
-			if index <= 1 {
+			index := strings.Index(sql[2:], "*/")
+			if index == -1 {
 				return sql
 			}
 			// don't strip /*! ... */ or /*!50700 ... */
 			if len(sql) > 2 && sql[2] == '!' {
 				return sql
 			}
-			sql = sql[index+2:]
-		case '-':
+			sql = sql[index+4:]
+		case '-', '#':
 			// Single line comment
 			index := strings.Index(sql, "\n")
 			if index == -1 {
@@ -157,7 +166,7 @@ func StripLeadingComments(sql string) string {
 }
 
 func hasCommentPrefix(sql string) bool {
-	return len(sql) > 1 && ((sql[0] == '/' && sql[1] == '*') || (sql[0] == '-' && sql[1] == '-'))
+	return len(sql) > 1 && ((sql[0] == '/' && (sql[1] == '*' || sql[1] == '/')) || (sql[0] == '-' && sql[1] == '-') || sql[0] == '#')
 }
 
 // ExtractMysqlComment extracts the version and SQL from a comment-only query
-- 
2.43.0


From 6343bd767ceab799419b7aca1691d1a3c103b509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 21/86] fix: keep a negative bind variable after a minus sign
 from starting a comment

---
 sqlparser/parsed_query.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sqlparser/parsed_query.go b/sqlparser/parsed_query.go
index b0f9b72..92d92e7 100644
--- a/sqlparser/parsed_query.go
+++ b/sqlparser/parsed_query.go
@@ -53,6 +53,7 @@ func (pq *ParsedQuery) GenerateQuery(bindVariables map[string]*querypb.BindVaria
 	current := 0
 	for _, loc := range pq.bindLocations {
 		buf.WriteString(pq.Query[current:loc.offset])
+		start := buf.Len()
 		name := pq.Query[loc.offset : loc.offset+loc.length]
 		if encodable, ok := extras[name[1:]]; ok {
 			encodable.EncodeSQL(buf)
@@ -63,6 +64,13 @@ func (pq *ParsedQuery) GenerateQuery(bindVariables map[string]*querypb.BindVaria
 			}
 			EncodeValue(buf, supplied)
 		}
+		// A negative value after a minus sign must not start a comment.
+		if out := buf.Bytes(); start > 0 && start < len(out) && out[start-1] == '-' && out[start] == '-' {
+			value := string(out[start:])
+			buf.Truncate(start)
+			buf.WriteByte(' ')
+			buf.WriteString(value)
+		}
 		current = loc.offset + loc.length
 	}
 	buf.WriteString(pq.Query[current:])
-- 
2.43.0


From 2e85cb3fc16f07b60a6d6513f5e49fdb89780ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 22/86] fix: do not panic when replacing tuples and list
 arguments

---
 sqlparser/ast.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 2075275..836e2ea 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -2110,13 +2110,27 @@ func (*Default) iExpr()          {}
 // and replaces it with to. If from matches root,
 // then to is returned.
 func ReplaceExpr(root, from, to Expr) Expr {
-	if root == from {
+	if isSameExpr(root, from) {
 		return to
 	}
 	root.replace(from, to)
 	return root
 }
 
+// isSameExpr says whether a and b are the same occurrence of an expression.
+// Tuples and list arguments are slices, which cannot be compared with ==.
+func isSameExpr(a, b Expr) bool {
+	switch a := a.(type) {
+	case ValTuple:
+		b, ok := b.(ValTuple)
+		return ok && len(a) > 0 && len(a) == len(b) && &a[0] == &b[0]
+	case ListArg:
+		b, ok := b.(ListArg)
+		return ok && len(a) > 0 && len(a) == len(b) && &a[0] == &b[0]
+	}
+	return a == b
+}
+
 // replaceExprs is a convenience function used by implementors
 // of the replace method.
 func replaceExprs(from, to Expr, exprs ...*Expr) bool {
@@ -2124,7 +2138,7 @@ func replaceExprs(from, to Expr, exprs ...*Expr) bool {
 		if *expr == nil {
 			continue
 		}
-		if *expr == from {
+		if isSameExpr(*expr, from) {
 			*expr = to
 			return true
 		}
-- 
2.43.0


From 4d4038a8ba48e2e6eb7a78056eac04b212c8535a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:13 +0000
Subject: [PATCH 23/86] fix: planning ended the process when the current schema
 had a table twice

---
 schema/generator.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 4ca423b..0df1626 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -3,7 +3,6 @@ package schema
 
 import (
 	"fmt"
-	"log"
 	"reflect"
 	"sort"
 	"strings"
@@ -147,7 +146,11 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 		if desiredTable == nil {
 			// Obsoleted table found. Drop table.
 			ddls = append(ddls, fmt.Sprintf("DROP TABLE %s", g.escapeTableName(currentTable.name)))
-			g.currentTables = removeTableByName(g.currentTables, currentTable.name)
+			remainingTables, err := removeTableByName(g.currentTables, currentTable.name)
+			if err != nil {
+				return ddls, err
+			}
+			g.currentTables = remainingTables
 			continue
 		}
 
@@ -1572,7 +1575,7 @@ func containsString(strs []string, str string) bool {
 	return false
 }
 
-func removeTableByName(tables []*Table, name string) []*Table {
+func removeTableByName(tables []*Table, name string) ([]*Table, error) {
 	removed := false
 	ret := []*Table{}
 
@@ -1585,9 +1588,9 @@ func removeTableByName(tables []*Table, name string) []*Table {
 	}
 
 	if !removed {
-		log.Fatalf("Failed to removeTableByName: Table `%s` is not found in `%v`", name, tables)
+		return nil, fmt.Errorf("Failed to removeTableByName: Table `%s` is not found", name)
 	}
-	return ret
+	return ret, nil
 }
 
 func generateSequenceClause(sequence *Sequence) string {
-- 
2.43.0


From 86a7c45da392266878799b1c8e4fe7dee6a4c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:30 +0000
Subject: [PATCH 24/86] fix: splitting statements at a semicolon in a
 MySQL-specific comment panicked

---
 sqlparser/ast.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 836e2ea..b0f854e 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -115,6 +115,9 @@ func SplitStatement(blob string) (string, string, error) {
 	tkn := 0
 	for {
 		tkn, _ = tokenizer.Scan()
+		if tkn == ';' && tokenizer.specialComment != nil {
+			continue // a semicolon inside of a MySQL-specific comment doesn't end the statement
+		}
 		if tkn == 0 || tkn == ';' || tkn == eofChar {
 			break
 		}
@@ -139,6 +142,9 @@ func SplitStatementToPieces(blob string) (pieces []string, err error) {
 	stmtBegin := 0
 	for {
 		tkn, _ = tokenizer.Scan()
+		if tkn == ';' && tokenizer.specialComment != nil {
+			continue // a semicolon inside of a MySQL-specific comment doesn't end the statement
+		}
 		if tkn == ';' {
 			stmt = blob[stmtBegin : tokenizer.Position-2]
 			pieces = append(pieces, stmt)
-- 
2.43.0


From 7aad73bcdbdd2a16e75dcf58203772ca76ca6950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 25/86] fix: the comment of an index was printed with two pairs
 of quotes

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 0df1626..242c623 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -955,7 +955,7 @@ func (g *Generator) generateIndexOptionDefinition(indexOptions []IndexOption) st
 				}
 				optionValue := string(indexOption.value.raw)
 				if strings.ToLower(optionName) == "comment" {
-					optionValue = fmt.Sprintf("'%s'", g.escapeString(optionValue))
+					optionValue = g.escapeString(optionValue)
 				}
 				optionDefinition += fmt.Sprintf(" %s %s", optionName, optionValue)
 			}
-- 
2.43.0


From 01afcf0545aacb9c408a27a71fd81f23cc3363e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 26/86] fix: the values of SET columns were not printed

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 242c623..b72e866 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -773,7 +773,7 @@ func generateDataType(column Column) string {
 		}
 	} else {
 		switch column.typeName {
-		case "enum":
+		case "enum", "set":
 			return fmt.Sprintf("%s(%s)%s", column.typeName, strings.Join(column.enumValues, ", "), suffix)
 		default:
 			return fmt.Sprintf("%s%s", column.typeName, suffix)
-- 
2.43.0


From 11b27766d0b58a6e28ab18ee3e419aebc8571745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 27/86] fix: default values of BIT columns longer than one bit
 were printed as b'0'

---
 schema/generator.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index b72e866..3be4abd 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1638,11 +1638,7 @@ func (g *Generator) generateDefaultDefinition(defaultVal Value) (string, error)
 	case ValueTypeFloat:
 		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeBit:
-		if defaultVal.bitVal {
-			return "DEFAULT b'1'", nil
-		} else {
-			return "DEFAULT b'0'", nil
-		}
+		return fmt.Sprintf("DEFAULT b'%s'", string(defaultVal.raw)), nil
 	case ValueTypeBool:
 		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeValArg: // NULL, CURRENT_TIMESTAMP, ...
-- 
2.43.0


From a4dae49fb4ba5af91feed4e69d1328e6df8c9298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 28/86] fix: the definition of a MySQL view was taken from a
 view of the same name in any database

---
 adapter/mysql/mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index ae4aa68..b24de45 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -70,7 +70,7 @@ func (d *MysqlDatabase) Views() ([]string, error) {
 		if err = rows.Scan(&viewName, &viewType); err != nil {
 			return nil, err
 		}
-		query := fmt.Sprintf("select VIEW_DEFINITION from INFORMATION_SCHEMA.VIEWS where TABLE_NAME = '%s';", viewName)
+		query := fmt.Sprintf("select VIEW_DEFINITION from INFORMATION_SCHEMA.VIEWS where TABLE_SCHEMA = database() and TABLE_NAME = '%s';", strings.ReplaceAll(viewName, "'", "''"))
 		if err = d.db.QueryRow(query).Scan(&definition); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 17917f9e24a10d2e33e45d00a7244cf7adf368b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 29/86] fix: names of triggers, their tables and views were not
 quoted in the dump of a MySQL database

---
 adapter/mysql/mysql.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index b24de45..d67403b 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -74,7 +74,7 @@ func (d *MysqlDatabase) Views() ([]string, error) {
 		if err = d.db.QueryRow(query).Scan(&definition); err != nil {
 			return nil, err
 		}
-		ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", viewName, definition))
+		ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", quoteName(viewName), definition))
 	}
 	return ddls, nil
 }
@@ -92,7 +92,7 @@ func (d *MysqlDatabase) Triggers() ([]string, error) {
 		if err = rows.Scan(&trigger, &event, &table, &statement, &timing, &created, &sqlMode, &definer, &characterSetClient, &collationConnection, &databaseCollation); err != nil {
 			return nil, err
 		}
-		ddls = append(ddls, fmt.Sprintf("CREATE TRIGGER %s %s %s ON %s FOR EACH ROW %s;", trigger, timing, event, table, statement))
+		ddls = append(ddls, fmt.Sprintf("CREATE TRIGGER %s %s %s ON %s FOR EACH ROW %s;", quoteName(trigger), timing, event, quoteName(table), statement))
 	}
 	return ddls, nil
 }
@@ -105,6 +105,10 @@ func (d *MysqlDatabase) Close() error {
 	return d.db.Close()
 }
 
+func quoteName(name string) string {
+	return "`" + strings.ReplaceAll(name, "`", "``") + "`"
+}
+
 func mysqlBuildDSN(config adapter.Config) string {
 	c := driver.NewConfig()
 	c.User = config.User
-- 
2.43.0


From 7f841f97254819ca332262eb332a83a7e4148271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:15 +0000
Subject: [PATCH 30/86] fix: removing AUTO_INCREMENT from a column undid the
 other changes of the column

---
 schema/generator.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 3be4abd..f32fd9d 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -431,8 +431,12 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 		for _, currentColumn := range currentTable.columns {
 			desiredColumn := findColumnByName(desired.table.columns, currentColumn.name)
 			if currentColumn.autoIncrement && (desiredColumn == nil || !desiredColumn.autoIncrement) {
-				currentColumn.autoIncrement = false
-				definition, err := g.generateColumnDefinition(currentColumn, false)
+				column := currentColumn
+				if desiredColumn != nil { // its other changes have already been made
+					column = *desiredColumn
+				}
+				column.autoIncrement = false
+				definition, err := g.generateColumnDefinition(column, false)
 				if err != nil {
 					return ddls, err
 				}
-- 
2.43.0


From 46cc85ae5f12eb621ee15e88973b4248e3fdd117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 31/86] fix: DEFAULT NOW() was taken for a bit literal

---
 schema/parser.go    | 7 +++++--
 sqlparser/parser.go | 2 +-
 sqlparser/parser.y  | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/schema/parser.go b/schema/parser.go
index e85a119..1019981 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -113,7 +113,7 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 			notNull:       castBoolPtr(parsedCol.Type.NotNull),
 			autoIncrement: castBool(parsedCol.Type.Autoincrement),
 			array:         castBool(parsedCol.Type.Array),
-			defaultDef:    parseDefaultDefinition(parsedCol.Type.Default),
+			defaultDef:    parseDefaultDefinition(mode, parsedCol.Type.Default),
 			length:        parseValue(parsedCol.Type.Length),
 			scale:         parseValue(parsedCol.Type.Scale),
 			charset:       parsedCol.Type.Charset,
@@ -541,11 +541,14 @@ func parseIdentity(opt *sqlparser.IdentityOpt) *Identity {
 	return &Identity{behavior: strings.ToUpper(opt.Behavior), notForReplication: opt.NotForReplication}
 }
 
-func parseDefaultDefinition(opt *sqlparser.DefaultDefinition) *DefaultDefinition {
+func parseDefaultDefinition(mode GeneratorMode, opt *sqlparser.DefaultDefinition) *DefaultDefinition {
 	if opt == nil || opt.Value == nil {
 		return nil
 	}
 	defaultVal := parseValue(opt.Value)
+	if mode == GeneratorModeMysql && defaultVal.valueType == ValueTypeValArg && string(defaultVal.raw) == "now()" {
+		defaultVal.raw = []byte("current_timestamp") // NOW() is reported as CURRENT_TIMESTAMP
+	}
 
 	var constraintName string
 	if opt.ConstraintName.String() != "" {
diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index 95f9ea2..d78b256 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -4289,7 +4289,7 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:1066
 		{
-			yyVAL.optVal = NewBitVal(yyDollar[1].bytes)
+			yyVAL.optVal = NewValArg([]byte("now()"))
 		}
 	case 151:
 		yyDollar = yyS[yypt-1 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index 191d8a5..f6e78f9 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1068,7 +1068,7 @@ default_val:
   }
 | NOW openb closeb
   {
-    $$ = NewBitVal($1)
+    $$ = NewValArg([]byte("now()"))
   }
 
 identity_behavior:
-- 
2.43.0


From 99d1bedd44c96a64d629bb755ed734275493dc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 32/86] fix: a column in a table-level PRIMARY KEY was changed
 on every run

---
 schema/generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index f32fd9d..f016fb1 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -275,7 +275,11 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				changeOrder := currentPos > desiredPos && currentPos-desiredPos > len(currentTable.columns)-len(desired.table.columns)
 
 				// Change column type and orders, *except* AUTO_INCREMENT and UNIQUE KEY.
-				if !g.haveSameColumnDefinition(*currentColumn, desiredColumn) || !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef) || changeOrder {
+				sameColumn := desiredColumn
+				if isPrimaryKey(desiredColumn, desired.table) { // `PRIMARY KEY` implies `NOT NULL`
+					sameColumn.keyOption = ColumnKeyPrimary
+				}
+				if !g.haveSameColumnDefinition(*currentColumn, sameColumn) || !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef) || changeOrder {
 					definition, err := g.generateColumnDefinition(desiredColumn, false)
 					if err != nil {
 						return ddls, err
-- 
2.43.0


From c64557fb3f077545d0322036af364b3107107a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 33/86] fix: the character set was cut wrongly when it starts
 with letters of 'charset='

---
 schema/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/parser.go b/schema/parser.go
index 1019981..a181e01 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -527,7 +527,7 @@ func normalizedTableName(mode GeneratorMode, tableName sqlparser.TableName) stri
 func detectCharset(table sqlparser.TableSpec) string {
 	for _, option := range strings.Split(table.Options, " ") {
 		if strings.HasPrefix(option, "charset=") {
-			return strings.TrimLeft(option, "charset=")
+			return strings.TrimPrefix(option, "charset=")
 		}
 	}
 	// TODO: consider returning err when charset is missing
-- 
2.43.0


From df48e1db6f6a431db5bd139b6411533ad9bb4a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 34/86] fix: a table defined twice in the schema file was
 accepted

---
 schema/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index f016fb1..c5b1fee 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -83,6 +83,9 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 	for _, ddl := range desiredDDLs {
 		switch desired := ddl.(type) {
 		case *CreateTable:
+			if findTableByName(g.desiredTables, desired.table.name) != nil {
+				return nil, fmt.Errorf("table '%s' is doubly created: '%s'", desired.table.name, desired.statement)
+			}
 			if currentTable := findTableByName(g.currentTables, desired.table.name); currentTable != nil {
 				// Table already exists, guess required DDLs.
 				tableDDLs, err := g.generateDDLsForCreateTable(*currentTable, *desired)
-- 
2.43.0


From 7b8f70680d267725a866ef8c406de9d1ef328a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:58 +0000
Subject: [PATCH 35/86] fix: a listing cut short by an error was taken for
 complete

---
 adapter/mssql/mssql.go       | 21 +++++++++++++++++++++
 adapter/mysql/mysql.go       |  9 +++++++++
 adapter/postgres/postgres.go | 21 +++++++++++++++++++++
 adapter/sqlite3/sqlite3.go   |  6 ++++++
 4 files changed, 57 insertions(+)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index a84e86a..034ac88 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -47,6 +47,9 @@ func (d *MssqlDatabase) TableNames() ([]string, error) {
 		}
 		tables = append(tables, schema+"."+name)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return tables, nil
 }
 
@@ -245,6 +248,9 @@ WHERE c.[object_id] = OBJECT_ID('%s.%s', 'U')`, schema, table)
 		}
 		cols = append(cols, col)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return cols, nil
 }
 
@@ -308,6 +314,9 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		definition := &indexDef{name: indexName, columns: []string{}, primary: isPrimary, unique: isUnique, indexType: typeDesc, included: []string{}, options: options}
 		indexDefMap[indexName] = definition
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	rows.Close()
 
@@ -345,6 +354,9 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 			indexDefMap[indexName].columns = append(indexDefMap[indexName].columns, columnDefinition)
 		}
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	indexDefs := make([]*indexDef, 0)
 	for _, definition := range indexDefMap {
@@ -388,6 +400,9 @@ WHERE f.parent_object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		}
 		defs = append(defs, def)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	return defs, nil
 }
@@ -436,6 +451,9 @@ INNER JOIN sys.sql_modules
 		definition = spaces.ReplaceAllString(definition, " ")
 		ddls = append(ddls, definition)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return ddls, nil
 }
 
@@ -460,6 +478,9 @@ INNER JOIN sys.all_sql_modules s ON s.object_id = tr.object_id`
 		}
 		triggers = append(triggers, definition)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	return triggers, nil
 }
diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index d67403b..851bc1d 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -42,6 +42,9 @@ func (d *MysqlDatabase) TableNames() ([]string, error) {
 		}
 		tables = append(tables, table)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return tables, nil
 }
 
@@ -76,6 +79,9 @@ func (d *MysqlDatabase) Views() ([]string, error) {
 		}
 		ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", quoteName(viewName), definition))
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return ddls, nil
 }
 
@@ -94,6 +100,9 @@ func (d *MysqlDatabase) Triggers() ([]string, error) {
 		}
 		ddls = append(ddls, fmt.Sprintf("CREATE TRIGGER %s %s %s ON %s FOR EACH ROW %s;", quoteName(trigger), timing, event, quoteName(table), statement))
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return ddls, nil
 }
 
diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index f9d2a35..8be4340 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -52,6 +52,9 @@ func (d *PostgresDatabase) TableNames() ([]string, error) {
 		}
 		tables = append(tables, schema+"."+name)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return tables, nil
 }
 
@@ -89,6 +92,9 @@ func (d *PostgresDatabase) Views() ([]string, error) {
 			),
 		)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return ddls, nil
 }
 
@@ -265,6 +271,9 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 		}
 		cols = append(cols, col)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return cols, nil
 }
 
@@ -290,6 +299,9 @@ func (d *PostgresDatabase) getIndexDefs(table string) ([]string, error) {
 		}
 		indexes = append(indexes, indexdef)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return indexes, nil
 }
 
@@ -318,6 +330,9 @@ WHERE constraint_type = 'PRIMARY KEY' AND tc.table_schema=$1 AND tc.table_name=$
 		}
 		columnNames = append(columnNames, columnName)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return columnNames, nil
 }
 
@@ -359,6 +374,9 @@ WHERE constraint_type = 'FOREIGN KEY' AND tc.table_schema=$1 AND tc.table_name=$
 		)
 		defs = append(defs, def)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return defs, nil
 }
 
@@ -400,6 +418,9 @@ func (d *PostgresDatabase) getPolicyDefs(table string) ([]string, error) {
 		}
 		defs = append(defs, def)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return defs, nil
 }
 
diff --git a/adapter/sqlite3/sqlite3.go b/adapter/sqlite3/sqlite3.go
index dd33ed2..a2c6db1 100644
--- a/adapter/sqlite3/sqlite3.go
+++ b/adapter/sqlite3/sqlite3.go
@@ -41,6 +41,9 @@ func (d *Sqlite3Database) TableNames() ([]string, error) {
 		}
 		tables = append(tables, name)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return tables, nil
 }
 
@@ -67,6 +70,9 @@ func (d *Sqlite3Database) Views() ([]string, error) {
 		}
 		ddls = append(ddls, sql)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	return ddls, nil
 }
-- 
2.43.0


From 7a5b74a86cfdca815fe9227299d148b35949e653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 36/86] fix: psqldef and mssqldef crashed when listing columns
 or indexes failed

---
 adapter/mssql/mssql.go       | 2 +-
 adapter/postgres/postgres.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 034ac88..ba56a85 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -209,7 +209,7 @@ WHERE c.[object_id] = OBJECT_ID('%s.%s', 'U')`, schema, table)
 
 	rows, err := d.db.Query(query)
 	if err != nil {
-		fmt.Println(err)
+		return nil, err
 	}
 	defer rows.Close()
 
diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 8be4340..4d77362 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -231,7 +231,7 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
 	if err != nil {
-		fmt.Println(err)
+		return nil, err
 	}
 	defer rows.Close()
 
@@ -282,7 +282,7 @@ func (d *PostgresDatabase) getIndexDefs(table string) ([]string, error) {
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
 	if err != nil {
-		fmt.Println(err)
+		return nil, err
 	}
 	defer rows.Close()
 
-- 
2.43.0


From b47219eadb5fab904805dd2d30b09e6da2abd190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 37/86] fix: --skip-drop withheld statements that only mention
 DROP in a name or literal

---
 adapter/database.go | 12 +++++++++++-
 sqldef.go           |  3 +--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/adapter/database.go b/adapter/database.go
index bb2e6ec..ba8f215 100644
--- a/adapter/database.go
+++ b/adapter/database.go
@@ -4,6 +4,7 @@ package adapter
 import (
 	"database/sql"
 	"fmt"
+	"regexp"
 	"strings"
 )
 
@@ -57,6 +58,15 @@ func DumpDDLs(d Database) (string, error) {
 	return strings.Join(ddls, ";\n\n"), nil
 }
 
+// Literals, quoted names and comments
+var quotedText = regexp.MustCompile("(?s)'(?:[^'\\\\]|\\\\.)*'|\"[^\"]*\"|`[^`]*`|\\[[^]]*\\]|--[^\n]*|/\\*.*?\\*/")
+var dropKeyword = regexp.MustCompile(`\bDROP\b`)
+
+// Whether a DDL is to be skipped by --skip-drop
+func IsDropDDL(ddl string) bool {
+	return dropKeyword.MatchString(quotedText.ReplaceAllString(ddl, " "))
+}
+
 func RunDDLs(d Database, ddls []string, skipDrop bool) error {
 	transaction, err := d.DB().Begin()
 	if err != nil {
@@ -64,7 +74,7 @@ func RunDDLs(d Database, ddls []string, skipDrop bool) error {
 	}
 	fmt.Println("-- Apply --")
 	for _, ddl := range ddls {
-		if skipDrop && strings.Contains(ddl, "DROP") {
+		if skipDrop && IsDropDDL(ddl) {
 			fmt.Printf("-- Skipped: %s;\n", ddl)
 			continue
 		}
diff --git a/sqldef.go b/sqldef.go
index b5e7241..4029704 100644
--- a/sqldef.go
+++ b/sqldef.go
@@ -5,7 +5,6 @@ import (
 	"io/ioutil"
 	"log"
 	"os"
-	"strings"
 
 	"github.com/k0kubun/sqldef/adapter"
 	"github.com/k0kubun/sqldef/schema"
@@ -85,7 +84,7 @@ func readFile(filepath string) (string, error) {
 func showDDLs(ddls []string, skipDrop bool) {
 	fmt.Println("-- dry run --")
 	for _, ddl := range ddls {
-		if skipDrop && strings.Contains(ddl, "DROP") {
+		if skipDrop && adapter.IsDropDDL(ddl) {
 			fmt.Printf("-- Skipped: %s;\n", ddl)
 			continue
 		}
-- 
2.43.0


From 5a419434f7c8ad1fe2c0431a164972b5f8905ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 38/86] fix: a trigger defined twice in the schema file was
 accepted

---
 schema/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index c5b1fee..b276be0 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -692,6 +692,9 @@ func (g *Generator) generateDDLsForCreateTrigger(triggerName string, desiredTrig
 		}
 	}
 
+	if findTriggerByName(g.desiredTriggers, desiredTrigger.name) != nil {
+		return nil, fmt.Errorf("trigger '%s' is doubly created: '%s'", desiredTrigger.name, desiredTrigger.statement)
+	}
 	g.desiredTriggers = append(g.desiredTriggers, desiredTrigger)
 
 	return ddls, nil
-- 
2.43.0


From 98af06bdadb99e42aca283a39606b305525a6589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:47 +0000
Subject: [PATCH 39/86] fix: foreign keys added by ALTER TABLE in the schema
 file were ignored

---
 schema/generator.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index b276be0..a435a5f 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -516,13 +516,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 		if currentForeignKey := findForeignKeyByName(currentTable.foreignKeys, desiredForeignKey.constraintName); currentForeignKey != nil {
 			// Drop and add foreign key as needed.
 			if !g.areSameForeignKeys(*currentForeignKey, desiredForeignKey) {
-				switch g.mode {
-				case GeneratorModeMysql:
-					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP FOREIGN KEY %s", g.escapeTableName(desired.table.name), g.escapeSQLName(currentForeignKey.constraintName)))
-				case GeneratorModePostgres, GeneratorModeMssql:
-					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(currentForeignKey.constraintName)))
-				default:
-				}
+				ddls = append(ddls, g.generateDropForeignKey(desired.table.name, currentForeignKey.constraintName)...)
 				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ADD %s", g.escapeTableName(desired.table.name), g.generateForeignKeyDefinition(desiredForeignKey)))
 			}
 		} else {
@@ -585,7 +579,20 @@ func (g *Generator) generateDDLsForCreateIndex(tableName string, desiredIndex In
 func (g *Generator) generateDDLsForAddForeignKey(tableName string, desiredForeignKey ForeignKey, action string, statement string) ([]string, error) {
 	var ddls []string
 
-	// TODO: Simulate currentTable.foreignKeys too
+	if len(desiredForeignKey.constraintName) == 0 {
+		return nil, fmt.Errorf("Foreign key without constraint symbol was found: '%s'", statement)
+	}
+	if currentTable := findTableByName(g.currentTables, tableName); currentTable != nil {
+		currentForeignKey := findForeignKeyByName(currentTable.foreignKeys, desiredForeignKey.constraintName)
+		if currentForeignKey == nil {
+			// Foreign key not found, add foreign key.
+			ddls = append(ddls, statement)
+		} else if !g.areSameForeignKeys(*currentForeignKey, desiredForeignKey) {
+			// Drop and add foreign key as needed.
+			ddls = append(ddls, g.generateDropForeignKey(currentTable.name, currentForeignKey.constraintName)...)
+			ddls = append(ddls, statement)
+		}
+	}
 
 	// Examine indexes in desiredTable to delete obsoleted indexes later
 	desiredTable := findTableByName(g.desiredTables, tableName)
@@ -700,6 +707,17 @@ func (g *Generator) generateDDLsForCreateTrigger(triggerName string, desiredTrig
 	return ddls, nil
 }
 
+func (g *Generator) generateDropForeignKey(tableName string, constraintName string) []string {
+	switch g.mode {
+	case GeneratorModeMysql:
+		return []string{fmt.Sprintf("ALTER TABLE %s DROP FOREIGN KEY %s", g.escapeTableName(tableName), g.escapeSQLName(constraintName))}
+	case GeneratorModePostgres, GeneratorModeMssql:
+		return []string{fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(tableName), g.escapeSQLName(constraintName))}
+	default:
+		return nil
+	}
+}
+
 // Even though simulated table doesn't have a foreign key, references could exist in column definitions.
 // This carefully generates DROP CONSTRAINT for such situations.
 func (g *Generator) generateDDLsForAbsentForeignKey(currentForeignKey ForeignKey, currentTable Table, desiredTable Table) []string {
-- 
2.43.0


From d3205bd1e3584ae182110694a51fc12d866e1079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:37 +0000
Subject: [PATCH 40/86] fix: names that need quotes were written without them
 in the exported PostgreSQL schema

---
 adapter/postgres/postgres.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 4d77362..6c51a3a 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -10,6 +10,7 @@ import (
 	"strings"
 
 	"github.com/k0kubun/sqldef/adapter"
+	"github.com/k0kubun/sqldef/sqlparser"
 	_ "github.com/lib/pq"
 )
 
@@ -88,7 +89,7 @@ func (d *PostgresDatabase) Views() ([]string, error) {
 		definition = spaces.ReplaceAllString(definition, " ")
 		ddls = append(
 			ddls, fmt.Sprintf(
-				"CREATE VIEW %s AS %s", schema+"."+name, definition,
+				"CREATE VIEW %s AS %s", escapeName(schema)+"."+escapeName(name), definition,
 			),
 		)
 	}
@@ -128,13 +129,14 @@ func (d *PostgresDatabase) DumpTableDDL(table string) (string, error) {
 
 func buildDumpTableDDL(table string, columns []column, pkeyCols, indexDefs, foreginDefs, policyDefs []string) string {
 	var queryBuilder strings.Builder
-	fmt.Fprintf(&queryBuilder, "CREATE TABLE %s (", table)
+	schema, name := splitTableName(table)
+	fmt.Fprintf(&queryBuilder, "CREATE TABLE %s.%s (", escapeName(schema), escapeName(name))
 	for i, col := range columns {
 		if i > 0 {
 			fmt.Fprint(&queryBuilder, ",")
 		}
 		fmt.Fprint(&queryBuilder, "\n"+indent)
-		fmt.Fprintf(&queryBuilder, "\"%s\" %s", col.Name, col.GetDataType())
+		fmt.Fprintf(&queryBuilder, "%s %s", quoteName(col.Name), col.GetDataType())
 		if col.Length > 0 {
 			fmt.Fprintf(&queryBuilder, "(%d)", col.Length)
 		}
@@ -156,7 +158,10 @@ func buildDumpTableDDL(table string, columns []column, pkeyCols, indexDefs, fore
 	}
 	if len(pkeyCols) > 0 {
 		fmt.Fprint(&queryBuilder, ",\n"+indent)
-		fmt.Fprintf(&queryBuilder, "PRIMARY KEY (\"%s\")", strings.Join(pkeyCols, "\", \""))
+		for i, col := range pkeyCols {
+			pkeyCols[i] = quoteName(col)
+		}
+		fmt.Fprintf(&queryBuilder, "PRIMARY KEY (%s)", strings.Join(pkeyCols, ", "))
 	}
 	fmt.Fprintf(&queryBuilder, "\n);\n")
 	for _, v := range indexDefs {
@@ -370,7 +375,8 @@ WHERE constraint_type = 'FOREIGN KEY' AND tc.table_schema=$1 AND tc.table_name=$
 		}
 		def := fmt.Sprintf(
 			"ALTER TABLE ONLY %s.%s ADD CONSTRAINT %s FOREIGN KEY (%s) REFERENCES %s.%s(%s) ON UPDATE %s ON DELETE %s",
-			tableSchema, tableName, constraintName, columnName, foreignTableSchema, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule,
+			escapeName(tableSchema), escapeName(tableName), escapeName(constraintName), escapeName(columnName),
+			escapeName(foreignTableSchema), escapeName(foreignTableName), escapeName(foreignColumnName), foreignUpdateRule, foreignDeleteRule,
 		)
 		defs = append(defs, def)
 	}
@@ -407,8 +413,8 @@ func (d *PostgresDatabase) getPolicyDefs(table string) ([]string, error) {
 		roles = policyRolesPrefixRegex.ReplaceAllString(roles, "")
 		roles = policyRolesSuffixRegex.ReplaceAllString(roles, "")
 		def := fmt.Sprintf(
-			"CREATE POLICY %s ON %s AS %s FOR %s TO %s",
-			policyName, table, permissive, cmd, roles,
+			"CREATE POLICY %s ON %s.%s AS %s FOR %s TO %s",
+			escapeName(policyName), escapeName(schema), escapeName(table), permissive, cmd, roles,
 		)
 		if using.Valid {
 			def += fmt.Sprintf(" USING %s", using.String)
@@ -456,6 +462,19 @@ func postgresBuildDSN(config adapter.Config) string {
 	return fmt.Sprintf("postgres://%s:%s@%s/%s?%s", url.QueryEscape(user), url.QueryEscape(password), host, database, strings.Join(options, "&"))
 }
 
+// escapeName quotes a name that would not be read back as it is.
+func escapeName(name string) string {
+	tokenizer := sqlparser.NewStringTokenizer(name, sqlparser.ParserModePostgres)
+	if token, value := tokenizer.Scan(); token == sqlparser.ID && string(value) == name && name == strings.ToLower(name) {
+		return name
+	}
+	return quoteName(name)
+}
+
+func quoteName(name string) string {
+	return `"` + strings.ReplaceAll(name, `"`, `""`) + `"`
+}
+
 func splitTableName(table string) (string, string) {
 	schema := "public"
 	schemaTable := strings.SplitN(table, ".", 2)
-- 
2.43.0


From 90ed463ed56de855dba39161226ed5283fc9b136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:33 +0000
Subject: [PATCH 41/86] fix: PostgreSQL identity columns declared without NOT
 NULL were given DROP NOT NULL

---
 schema/generator.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index a435a5f..fa476d6 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -312,12 +312,9 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					ddls = append(ddls, ddl)
 				}
 
-				if !isPrimaryKey(*currentColumn, currentTable) { // Primary Key implies NOT NULL
-					if g.notNull(*currentColumn) && !g.notNull(desiredColumn) {
-						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP NOT NULL", g.escapeTableName(desired.table.name), g.escapeSQLName(currentColumn.name)))
-					} else if !g.notNull(*currentColumn) && g.notNull(desiredColumn) {
-						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s SET NOT NULL", g.escapeTableName(desired.table.name), g.escapeSQLName(currentColumn.name)))
-					}
+				implicitNotNull := isPrimaryKey(*currentColumn, currentTable) // Primary Key implies NOT NULL
+				if !implicitNotNull && !g.notNull(*currentColumn) && g.notNull(desiredColumn) {
+					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s SET NOT NULL", g.escapeTableName(desired.table.name), g.escapeSQLName(currentColumn.name)))
 				}
 
 				// GENERATED AS IDENTITY
@@ -339,6 +336,11 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					}
 				}
 
+				// An identity column cannot be nullable, so this comes after removing the identity
+				if !implicitNotNull && g.notNull(*currentColumn) && !g.notNull(desiredColumn) {
+					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP NOT NULL", g.escapeTableName(desired.table.name), g.escapeSQLName(currentColumn.name)))
+				}
+
 				// default
 				if !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef) {
 					if desiredColumn.defaultDef == nil {
@@ -1112,7 +1114,7 @@ func (g *Generator) notNull(column Column) bool {
 	if column.notNull == nil {
 		switch g.mode {
 		case GeneratorModePostgres:
-			return column.typeName == "serial" || column.typeName == "bigserial"
+			return column.typeName == "serial" || column.typeName == "bigserial" || column.identity != nil
 		default:
 			return false
 		}
-- 
2.43.0


From 451aacf67049a1aedf363931e64f1b80e6d9fe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:55 +0000
Subject: [PATCH 42/86] fix: smallserial columns lost NOT NULL

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index fa476d6..76b4c83 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1114,7 +1114,7 @@ func (g *Generator) notNull(column Column) bool {
 	if column.notNull == nil {
 		switch g.mode {
 		case GeneratorModePostgres:
-			return column.typeName == "serial" || column.typeName == "bigserial" || column.identity != nil
+			return column.typeName == "smallserial" || column.typeName == "serial" || column.typeName == "bigserial" || column.identity != nil
 		default:
 			return false
 		}
-- 
2.43.0


From 5d6b5049db68b6db5e305233f1875718319b1330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 43/86] fix: changed roles and WITH CHECK of PostgreSQL
 policies were ignored

---
 schema/generator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 76b4c83..3fbfa19 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1499,11 +1499,11 @@ func areSamePolicies(policyA, policyB Policy) bool {
 	if strings.ToLower(policyA.permissive) != strings.ToLower(policyB.permissive) {
 		return false
 	}
-	if strings.ToLower(policyA.using) != strings.ToLower(policyB.using) {
-		return fmt.Sprintf("(%s)", policyA.using) == policyB.using
+	if strings.ToLower(policyA.using) != strings.ToLower(policyB.using) && fmt.Sprintf("(%s)", policyA.using) != policyB.using {
+		return false
 	}
-	if strings.ToLower(policyA.withCheck) != strings.ToLower(policyB.withCheck) {
-		return fmt.Sprintf("(%s)", policyA.withCheck) == policyB.withCheck
+	if strings.ToLower(policyA.withCheck) != strings.ToLower(policyB.withCheck) && fmt.Sprintf("(%s)", policyA.withCheck) != policyB.withCheck {
+		return false
 	}
 	if len(policyA.roles) != len(policyB.roles) {
 		return false
-- 
2.43.0


From b777db781e97823a0638b1fd6b4cdce6387bae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:27 +0000
Subject: [PATCH 44/86] fix: PostgreSQL policies without AS or FOR were
 recreated on every run

---
 schema/generator.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 3fbfa19..769280b 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1493,10 +1493,10 @@ func (g *Generator) areSameForeignKeys(foreignKeyA ForeignKey, foreignKeyB Forei
 }
 
 func areSamePolicies(policyA, policyB Policy) bool {
-	if strings.ToLower(policyA.scope) != strings.ToLower(policyB.scope) {
+	if normalizePolicyOption(policyA.scope, "all") != normalizePolicyOption(policyB.scope, "all") {
 		return false
 	}
-	if strings.ToLower(policyA.permissive) != strings.ToLower(policyB.permissive) {
+	if normalizePolicyOption(policyA.permissive, "permissive") != normalizePolicyOption(policyB.permissive, "permissive") {
 		return false
 	}
 	if strings.ToLower(policyA.using) != strings.ToLower(policyB.using) && fmt.Sprintf("(%s)", policyA.using) != policyB.using {
@@ -1522,6 +1522,13 @@ func areSamePolicies(policyA, policyB Policy) bool {
 	return true
 }
 
+func normalizePolicyOption(option string, defaultOption string) string {
+	if option == "" {
+		return defaultOption
+	}
+	return strings.ToLower(option)
+}
+
 func (g *Generator) normalizeOnUpdate(onUpdate string) string {
 	if (g.mode == GeneratorModePostgres || g.mode == GeneratorModeMssql) && onUpdate == "" {
 		return "NO ACTION"
-- 
2.43.0


From 0a71b0ff5bf6fac6cd5bf71d04822da19f4c8b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:14 +0000
Subject: [PATCH 45/86] fix: obsolete views were dropped after the tables and
 columns they use (PostgreSQL)

---
 schema/generator.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 769280b..2b5d9ca 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -143,6 +143,11 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 		}
 	}
 
+	// PostgreSQL does not drop what a view depends on. Clean up obsoleted views first
+	if g.mode == GeneratorModePostgres {
+		ddls = append(ddls, g.generateDDLsForAbsentViews()...)
+	}
+
 	// Clean up obsoleted tables, indexes, columns
 	for _, currentTable := range g.currentTables {
 		desiredTable := findTableByName(g.desiredTables, currentTable.name)
@@ -207,14 +212,22 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 	}
 
 	// Clean up obsoleted views
+	if g.mode != GeneratorModePostgres {
+		ddls = append(ddls, g.generateDDLsForAbsentViews()...)
+	}
+
+	return ddls, nil
+}
+
+func (g *Generator) generateDDLsForAbsentViews() []string {
+	ddls := []string{}
 	for _, currentView := range g.currentViews {
 		if containsString(convertViewNames(g.desiredViews), currentView.name) {
 			continue
 		}
 		ddls = append(ddls, fmt.Sprintf("DROP VIEW %s", g.escapeTableName(currentView.name)))
 	}
-
-	return ddls, nil
+	return ddls
 }
 
 func (g *Generator) generateDDLsForAbsentColumn(currentTable *Table, columnName string) []string {
-- 
2.43.0


From a7ead441682e081244406e74ce96b3c37b1e1911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:19 +0000
Subject: [PATCH 46/86] fix: indexes of tables outside the public schema could
 not be dropped

---
 schema/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 2b5d9ca..27960dc 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1075,6 +1075,9 @@ func (g *Generator) generateDropIndex(tableName string, indexName string) string
 	case GeneratorModeMysql:
 		return fmt.Sprintf("ALTER TABLE %s DROP INDEX %s", g.escapeTableName(tableName), g.escapeSQLName(indexName))
 	case GeneratorModePostgres:
+		if schema := strings.SplitN(tableName, ".", 2)[0]; schema != "public" {
+			return fmt.Sprintf("DROP INDEX %s.%s", g.escapeSQLName(schema), g.escapeSQLName(indexName))
+		}
 		return fmt.Sprintf("DROP INDEX %s", g.escapeSQLName(indexName))
 	case GeneratorModeMssql:
 		return fmt.Sprintf("DROP INDEX %s ON %s", g.escapeSQLName(indexName), g.escapeTableName(tableName))
-- 
2.43.0


From fb3c259e640f56ba44089ab2970f104d1b8f2b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:25 +0000
Subject: [PATCH 47/86] fix: check constraints of tables outside the public
 schema could not be changed

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 27960dc..af613f3 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -370,7 +370,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				}
 
 				if !areSameCheckDefinition(currentColumn.check, desiredColumn.check) || currentColumn.checkNoInherit != desiredColumn.checkNoInherit {
-					constraintName := fmt.Sprintf("%s_%s_check", strings.Replace(desired.table.name, "public.", "", 1), desiredColumn.name)
+					constraintName := fmt.Sprintf("%s_%s_check", strings.SplitN(desired.table.name, ".", 2)[1], desiredColumn.name) // without schema
 					if currentColumn.check != nil {
 						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), constraintName)
 						ddls = append(ddls, ddl)
-- 
2.43.0


From 0abe4205b3d565f43c142455e17d965b9c60e8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:43 +0000
Subject: [PATCH 48/86] fix: tables of one name in different schemas were mixed
 up (PostgreSQL)

---
 adapter/postgres/postgres.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 6c51a3a..640afe6 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -230,7 +230,7 @@ FROM pg_attribute f
 	LEFT JOIN pg_namespace n ON n.oid = c.relnamespace
 	LEFT JOIN pg_constraint p ON p.conrelid = c.oid AND f.attnum = ANY (p.conkey) AND p.contype = 'u'
 	LEFT JOIN pg_constraint pc ON pc.conrelid = c.oid AND f.attnum = ANY (pc.conkey) AND pc.contype = 'c'
-	LEFT JOIN information_schema.columns s ON s.column_name=f.attname AND s.table_name = c.relname
+	LEFT JOIN information_schema.columns s ON s.column_name=f.attname AND s.table_name = c.relname AND s.table_schema = n.nspname
 WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum > 0 ORDER BY f.attnum;`
 
 	schema, table := splitTableName(table)
@@ -316,7 +316,7 @@ func (d *PostgresDatabase) getPrimaryKeyColumns(table string) ([]string, error)
 FROM
 	information_schema.table_constraints AS tc
 	JOIN information_schema.key_column_usage AS kcu
-		ON tc.constraint_name = kcu.constraint_name
+		ON tc.constraint_schema = kcu.constraint_schema AND tc.constraint_name = kcu.constraint_name AND tc.table_name = kcu.table_name
 WHERE constraint_type = 'PRIMARY KEY' AND tc.table_schema=$1 AND tc.table_name=$2 ORDER BY kcu.ordinal_position`
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
@@ -353,11 +353,11 @@ func (d *PostgresDatabase) getForeginDefs(table string) ([]string, error) {
 FROM
 	information_schema.table_constraints AS tc
 	JOIN information_schema.key_column_usage AS kcu
-		ON tc.constraint_name = kcu.constraint_name
+		ON tc.constraint_schema = kcu.constraint_schema AND tc.constraint_name = kcu.constraint_name AND tc.table_name = kcu.table_name
 	JOIN information_schema.constraint_column_usage AS ccu
-		ON tc.constraint_name = ccu.constraint_name
+		ON tc.constraint_schema = ccu.constraint_schema AND tc.constraint_name = ccu.constraint_name
 	JOIN information_schema.referential_constraints AS rc
-		ON tc.constraint_name = rc.constraint_name
+		ON tc.constraint_schema = rc.constraint_schema AND tc.constraint_name = rc.constraint_name
 WHERE constraint_type = 'FOREIGN KEY' AND tc.table_schema=$1 AND tc.table_name=$2`
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
-- 
2.43.0


From 122ed04673d3466cea06abd6e5083acd482dee06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:35 +0000
Subject: [PATCH 49/86] fix: columns of a type given by an alias were changed
 on every run (decimal, float, numeric, real, double precision)

---
 schema/generator.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index af613f3..f240013 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -26,6 +26,14 @@ var (
 	}
 	mysqlDataTypeAliases = map[string]string{
 		"boolean": "tinyint",
+		"numeric": "decimal",
+		"real":    "double",
+
+		"double precision": "double",
+	}
+	postgresDataTypeAliases = map[string]string{
+		"decimal": "numeric",
+		"float":   "double precision",
 	}
 )
 
@@ -1435,6 +1443,12 @@ func (g *Generator) normalizeDataType(dataType string) string {
 			dataType = alias
 		}
 	}
+	if g.mode == GeneratorModePostgres {
+		alias, ok = postgresDataTypeAliases[dataType]
+		if ok {
+			dataType = alias
+		}
+	}
 	return dataType
 }
 
-- 
2.43.0


From 99d6d86dc3b00162cf069a6862d4d606c9d1ca87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:51 +0000
Subject: [PATCH 50/86] fix: the precision of NUMERIC columns was not exported
 (PostgreSQL)

---
 adapter/postgres/postgres.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 640afe6..232017e 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -220,7 +220,7 @@ func (c *column) GetDataType() string {
 
 func (d *PostgresDatabase) getColumns(table string) ([]column, error) {
 	const query = `SELECT s.column_name, s.column_default, s.is_nullable, s.character_maximum_length,
-	CASE WHEN s.data_type IN ('ARRAY', 'USER-DEFINED') THEN format_type(f.atttypid, f.atttypmod) ELSE s.data_type END,
+	CASE WHEN s.data_type IN ('ARRAY', 'USER-DEFINED', 'numeric') THEN format_type(f.atttypid, f.atttypmod) ELSE s.data_type END,
 	CASE WHEN p.contype = 'u' THEN true ELSE false END AS uniquekey,
 	CASE WHEN pc.contype = 'c' THEN pg_get_constraintdef(pc.oid, true) ELSE NULL END AS check,
 	s.identity_generation
-- 
2.43.0


From 650c84bcc052c84d5a1260169547b44de367ce9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 51/86] fix: policies with a simple condition were exported
 without the required parentheses

---
 adapter/postgres/postgres.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 232017e..a95d74a 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -417,10 +417,10 @@ func (d *PostgresDatabase) getPolicyDefs(table string) ([]string, error) {
 			escapeName(policyName), escapeName(schema), escapeName(table), permissive, cmd, roles,
 		)
 		if using.Valid {
-			def += fmt.Sprintf(" USING %s", using.String)
+			def += fmt.Sprintf(" USING %s", parenthesize(using.String))
 		}
 		if withCheck.Valid {
-			def += fmt.Sprintf(" WITH CHECK %s", withCheck.String)
+			def += fmt.Sprintf(" WITH CHECK %s", parenthesize(withCheck.String))
 		}
 		defs = append(defs, def)
 	}
@@ -462,6 +462,14 @@ func postgresBuildDSN(config adapter.Config) string {
 	return fmt.Sprintf("postgres://%s:%s@%s/%s?%s", url.QueryEscape(user), url.QueryEscape(password), host, database, strings.Join(options, "&"))
 }
 
+// parenthesize adds the parentheses that pg_policies leaves out around simple expressions.
+func parenthesize(expr string) string {
+	if strings.HasPrefix(expr, "(") && strings.HasSuffix(expr, ")") {
+		return expr
+	}
+	return "(" + expr + ")"
+}
+
 // escapeName quotes a name that would not be read back as it is.
 func escapeName(name string) string {
 	tokenizer := sqlparser.NewStringTokenizer(name, sqlparser.ParserModePostgres)
-- 
2.43.0


From b51d5877dc77a202f9b1fc31da161177939b07c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:02 +0000
Subject: [PATCH 52/86] fix: indexes were taken for primary keys by the suffix
 of their name (PostgreSQL)

---
 adapter/postgres/postgres.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index a95d74a..962afcb 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -283,7 +283,11 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 }
 
 func (d *PostgresDatabase) getIndexDefs(table string) ([]string, error) {
-	const query = "SELECT indexName, indexdef FROM pg_indexes WHERE schemaname=$1 AND tablename=$2"
+	// Exclude the indexes of primary keys
+	const query = `SELECT indexName, indexdef FROM pg_indexes
+WHERE schemaname=$1 AND tablename=$2 AND indexname NOT IN (
+	SELECT c.conname FROM pg_constraint c JOIN pg_namespace n ON n.oid = c.connamespace WHERE c.contype = 'p' AND n.nspname = $1
+)`
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
 	if err != nil {
@@ -298,10 +302,6 @@ func (d *PostgresDatabase) getIndexDefs(table string) ([]string, error) {
 		if err != nil {
 			return nil, err
 		}
-		indexName = strings.Trim(indexName, `" `)
-		if strings.HasSuffix(indexName, "_pkey") {
-			continue
-		}
 		indexes = append(indexes, indexdef)
 	}
 	if err := rows.Err(); err != nil {
-- 
2.43.0


From aeff93697ebb1ab500161b4b0f54bb9986366b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:26 +0000
Subject: [PATCH 53/86] fix: the exported indexes of a SQL Server table were
 not separated

---
 adapter/mssql/mssql.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index ba56a85..be01c8f 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -157,6 +157,7 @@ func buildDumpTableDDL(table string, columns []column, indexDefs []*indexDef, fo
 			}
 			fmt.Fprint(&queryBuilder, " )")
 		}
+		fmt.Fprint(&queryBuilder, ";\n")
 	}
 	return strings.TrimSuffix(queryBuilder.String(), ";\n")
 }
-- 
2.43.0


From e866cfc0833a0065830f6de9757fa0a1f88f07ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 54/86] fix: the indexes of a SQL Server table were exported in
 random order

---
 adapter/mssql/mssql.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index be01c8f..d9653a0 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -294,6 +294,7 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 	}
 
 	indexDefMap := make(map[string]*indexDef)
+	indexDefs := make([]*indexDef, 0)
 	var indexName, typeDesc, fillfactor string
 	var isPrimary, isUnique, padIndex, ignoreDupKey, noRecompute, incremental, rowLocks, pageLocks bool
 	for rows.Next() {
@@ -314,6 +315,7 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 
 		definition := &indexDef{name: indexName, columns: []string{}, primary: isPrimary, unique: isUnique, indexType: typeDesc, included: []string{}, options: options}
 		indexDefMap[indexName] = definition
+		indexDefs = append(indexDefs, definition)
 	}
 	if err := rows.Err(); err != nil {
 		return nil, err
@@ -359,10 +361,6 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		return nil, err
 	}
 
-	indexDefs := make([]*indexDef, 0)
-	for _, definition := range indexDefMap {
-		indexDefs = append(indexDefs, definition)
-	}
 	return indexDefs, nil
 }
 
-- 
2.43.0


From c12573c37c9c02946c37f66e15c905382a00d888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:13 +0000
Subject: [PATCH 55/86] fix: names that need brackets were written without them
 in the exported SQL Server schema

---
 adapter/mssql/mssql.go | 47 +++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index d9653a0..20dd930 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -9,6 +9,7 @@ import (
 
 	_ "github.com/denisenkom/go-mssqldb"
 	"github.com/k0kubun/sqldef/adapter"
+	"github.com/k0kubun/sqldef/sqlparser"
 )
 
 const indent = "    "
@@ -71,13 +72,15 @@ func (d *MssqlDatabase) DumpTableDDL(table string) (string, error) {
 
 func buildDumpTableDDL(table string, columns []column, indexDefs []*indexDef, foreignDefs []string) string {
 	var queryBuilder strings.Builder
+	schema, name := splitTableName(table)
+	table = escapeName(schema) + "." + escapeName(name)
 	fmt.Fprintf(&queryBuilder, "CREATE TABLE %s (", table)
 	for i, col := range columns {
 		if i > 0 {
 			fmt.Fprint(&queryBuilder, ",")
 		}
 		fmt.Fprint(&queryBuilder, "\n"+indent)
-		fmt.Fprintf(&queryBuilder, "%s %s", col.Name, col.dataType)
+		fmt.Fprintf(&queryBuilder, "%s %s", escapeName(col.Name), col.dataType)
 		if col.dataType == "char" || col.dataType == "varchar" || col.dataType == "binary" || col.dataType == "varbinary" {
 			fmt.Fprintf(&queryBuilder, "(%s)", col.Length)
 		}
@@ -85,7 +88,7 @@ func buildDumpTableDDL(table string, columns []column, indexDefs []*indexDef, fo
 			fmt.Fprint(&queryBuilder, " NOT NULL")
 		}
 		if col.DefaultName != "" {
-			fmt.Fprintf(&queryBuilder, " CONSTRAINT %s DEFAULT %s", col.DefaultName, col.DefaultVal)
+			fmt.Fprintf(&queryBuilder, " CONSTRAINT %s DEFAULT %s", escapeName(col.DefaultName), col.DefaultVal)
 		}
 		if col.Identity != nil {
 			fmt.Fprintf(&queryBuilder, " IDENTITY(%s,%s)", col.Identity.SeedValue, col.Identity.IncrementValue)
@@ -94,7 +97,7 @@ func buildDumpTableDDL(table string, columns []column, indexDefs []*indexDef, fo
 			}
 		}
 		if col.Check != nil {
-			fmt.Fprintf(&queryBuilder, " CONSTRAINT [%s] CHECK", col.Check.Name)
+			fmt.Fprintf(&queryBuilder, " CONSTRAINT %s CHECK", quoteName(col.Check.Name))
 			if col.Check.NotForReplication {
 				fmt.Fprint(&queryBuilder, " NOT FOR REPLICATION")
 			}
@@ -108,7 +111,7 @@ func buildDumpTableDDL(table string, columns []column, indexDefs []*indexDef, fo
 			continue
 		}
 		fmt.Fprint(&queryBuilder, ",\n"+indent)
-		fmt.Fprintf(&queryBuilder, "CONSTRAINT [%s] PRIMARY KEY", indexDef.name)
+		fmt.Fprintf(&queryBuilder, "CONSTRAINT %s PRIMARY KEY", quoteName(indexDef.name))
 
 		if indexDef.indexType == "CLUSTERED" || indexDef.indexType == "NONCLUSTERED" {
 			fmt.Fprintf(&queryBuilder, " %s", indexDef.indexType)
@@ -143,7 +146,7 @@ func buildDumpTableDDL(table string, columns []column, indexDefs []*indexDef, fo
 		if indexDef.indexType == "CLUSTERED" || indexDef.indexType == "NONCLUSTERED" {
 			fmt.Fprintf(&queryBuilder, " %s", indexDef.indexType)
 		}
-		fmt.Fprintf(&queryBuilder, " INDEX [%s] ON %s (%s)", indexDef.name, table, strings.Join(indexDef.columns, ", "))
+		fmt.Fprintf(&queryBuilder, " INDEX %s ON %s (%s)", quoteName(indexDef.name), table, strings.Join(indexDef.columns, ", "))
 		if len(indexDef.included) > 0 {
 			fmt.Fprintf(&queryBuilder, " INCLUDE (%s)", strings.Join(indexDef.included, ", "))
 		}
@@ -186,7 +189,6 @@ type check struct {
 }
 
 func (d *MssqlDatabase) getColumns(table string) ([]column, error) {
-	schema, table := splitTableName(table)
 	query := fmt.Sprintf(`SELECT
 	c.name,
 	[type_name] = tp.name,
@@ -206,7 +208,7 @@ FROM sys.columns c WITH(NOLOCK)
 JOIN sys.types tp WITH(NOLOCK) ON c.user_type_id = tp.user_type_id
 LEFT JOIN sys.check_constraints cc WITH(NOLOCK) ON c.[object_id] = cc.parent_object_id AND cc.parent_column_id = c.column_id
 LEFT JOIN sys.identity_columns ic WITH(NOLOCK) ON c.[object_id] = ic.[object_id] AND ic.[column_id] = c.[column_id]
-WHERE c.[object_id] = OBJECT_ID('%s.%s', 'U')`, schema, table)
+WHERE c.[object_id] = OBJECT_ID(%s, 'U')`, objectName(table))
 
 	rows, err := d.db.Query(query)
 	if err != nil {
@@ -271,7 +273,6 @@ type indexOption struct {
 }
 
 func (d *MssqlDatabase) getIndexDefs(table string) ([]*indexDef, error) {
-	schema, table := splitTableName(table)
 	query := fmt.Sprintf(`SELECT
 	ind.name AS index_name,
 	ind.is_primary_key,
@@ -286,7 +287,7 @@ func (d *MssqlDatabase) getIndexDefs(table string) ([]*indexDef, error) {
 	ind.allow_page_locks
 FROM sys.indexes ind
 INNER JOIN sys.stats st ON ind.object_id = st.object_id AND ind.index_id = st.stats_id
-WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
+WHERE ind.object_id = OBJECT_ID(%s)`, objectName(table))
 
 	rows, err := d.db.Query(query)
 	if err != nil {
@@ -330,7 +331,7 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 	ic.is_included_column
 FROM sys.indexes ind
 INNER JOIN sys.index_columns ic ON ind.object_id = ic.object_id AND ind.index_id = ic.index_id
-WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
+WHERE ind.object_id = OBJECT_ID(%s)`, objectName(table))
 
 	rows, err = d.db.Query(query)
 	if err != nil {
@@ -346,7 +347,7 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 			return nil, err
 		}
 
-		columnDefinition := fmt.Sprintf("[%s]", columnName)
+		columnDefinition := quoteName(columnName)
 
 		if isIncluded {
 			indexDefMap[indexName].included = append(indexDefMap[indexName].included, columnDefinition)
@@ -365,7 +366,6 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 }
 
 func (d *MssqlDatabase) getForeignDefs(table string) ([]string, error) {
-	schema, table := splitTableName(table)
 	query := fmt.Sprintf(`SELECT
 	f.name,
 	COL_NAME(f.parent_object_id, fc.parent_column_id),
@@ -375,7 +375,7 @@ func (d *MssqlDatabase) getForeignDefs(table string) ([]string, error) {
 	f.delete_referential_action_desc,
 	f.is_not_for_replication
 FROM sys.foreign_keys f INNER JOIN sys.foreign_key_columns fc ON f.OBJECT_ID = fc.constraint_object_id
-WHERE f.parent_object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
+WHERE f.parent_object_id = OBJECT_ID(%s)`, objectName(table))
 
 	rows, err := d.db.Query(query)
 	if err != nil {
@@ -393,7 +393,7 @@ WHERE f.parent_object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		}
 		foreignUpdateRule = strings.Replace(foreignUpdateRule, "_", " ", -1)
 		foreignDeleteRule = strings.Replace(foreignDeleteRule, "_", " ", -1)
-		def := fmt.Sprintf("CONSTRAINT [%s] FOREIGN KEY ([%s]) REFERENCES [%s] ([%s]) ON UPDATE %s ON DELETE %s", constraintName, columnName, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule)
+		def := fmt.Sprintf("CONSTRAINT %s FOREIGN KEY (%s) REFERENCES %s (%s) ON UPDATE %s ON DELETE %s", quoteName(constraintName), quoteName(columnName), quoteName(foreignTableName), quoteName(foreignColumnName), foreignUpdateRule, foreignDeleteRule)
 		if notForReplication {
 			def += " NOT FOR REPLICATION"
 		}
@@ -505,6 +505,25 @@ func mssqlBuildDSN(config adapter.Config) string {
 	return u.String()
 }
 
+// escapeName quotes a name that would not be read back as it is.
+func escapeName(name string) string {
+	tokenizer := sqlparser.NewStringTokenizer(name, sqlparser.ParserModeMssql)
+	if token, value := tokenizer.Scan(); token == sqlparser.ID && string(value) == name {
+		return name
+	}
+	return quoteName(name)
+}
+
+func quoteName(name string) string {
+	return "[" + strings.ReplaceAll(name, "]", "]]") + "]"
+}
+
+// objectName makes the string literal by which OBJECT_ID finds a table.
+func objectName(table string) string {
+	schema, name := splitTableName(table)
+	return "N'" + strings.ReplaceAll(quoteName(schema)+"."+quoteName(name), "'", "''") + "'"
+}
+
 func splitTableName(table string) (string, string) {
 	schema := "dbo"
 	schemaTable := strings.SplitN(table, ".", 2)
-- 
2.43.0


From efdb1bdbabdbb58d4e44b8edbe30520d847f5208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:45 +0000
Subject: [PATCH 56/86] fix: lengths of NCHAR and NVARCHAR columns, the
 precision of DECIMAL, NUMERIC, TIME and DATETIMEOFFSET columns were not
 exported (SQL Server)

---
 adapter/mssql/mssql.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 20dd930..1472f8f 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"net/url"
 	"regexp"
+	"strconv"
 	"strings"
 
 	_ "github.com/denisenkom/go-mssqldb"
@@ -81,8 +82,19 @@ func buildDumpTableDDL(table string, columns []column, indexDefs []*indexDef, fo
 		}
 		fmt.Fprint(&queryBuilder, "\n"+indent)
 		fmt.Fprintf(&queryBuilder, "%s %s", escapeName(col.Name), col.dataType)
-		if col.dataType == "char" || col.dataType == "varchar" || col.dataType == "binary" || col.dataType == "varbinary" {
+		switch col.dataType {
+		case "char", "varchar", "binary", "varbinary":
 			fmt.Fprintf(&queryBuilder, "(%s)", col.Length)
+		case "nchar", "nvarchar": // two bytes for each character
+			if length, err := strconv.Atoi(col.Length); err == nil && length > 0 {
+				fmt.Fprintf(&queryBuilder, "(%d)", length/2)
+			}
+		case "decimal", "numeric":
+			fmt.Fprintf(&queryBuilder, "(%s, %s)", col.Precision, col.Scale)
+		case "time", "datetimeoffset":
+			if col.Scale != "7" {
+				fmt.Fprintf(&queryBuilder, "(%s)", col.Scale)
+			}
 		}
 		if !col.Nullable {
 			fmt.Fprint(&queryBuilder, " NOT NULL")
@@ -169,6 +181,8 @@ type column struct {
 	Name        string
 	dataType    string
 	Length      string
+	Precision   string
+	Scale       string
 	Nullable    bool
 	Identity    *identity
 	DefaultName string
@@ -193,6 +207,8 @@ func (d *MssqlDatabase) getColumns(table string) ([]column, error) {
 	c.name,
 	[type_name] = tp.name,
 	c.max_length,
+	c.precision,
+	c.scale,
 	c.is_nullable,
 	c.is_identity,
 	ic.seed_value,
@@ -219,16 +235,18 @@ WHERE c.[object_id] = OBJECT_ID(%s, 'U')`, objectName(table))
 	cols := []column{}
 	for rows.Next() {
 		col := column{}
-		var colName, dataType, maxLen, defaultId string
+		var colName, dataType, maxLen, precision, scale, defaultId string
 		var seedValue, incrementValue, defaultName, defaultVal, checkName, checkDefinition *string
 		var isNullable, isIdentity bool
 		var identityNotForReplication, checkNotForReplication *bool
-		err = rows.Scan(&colName, &dataType, &maxLen, &isNullable, &isIdentity, &seedValue, &incrementValue, &identityNotForReplication, &defaultId, &defaultName, &defaultVal, &checkName, &checkDefinition, &checkNotForReplication)
+		err = rows.Scan(&colName, &dataType, &maxLen, &precision, &scale, &isNullable, &isIdentity, &seedValue, &incrementValue, &identityNotForReplication, &defaultId, &defaultName, &defaultVal, &checkName, &checkDefinition, &checkNotForReplication)
 		if err != nil {
 			return nil, err
 		}
 		col.Name = colName
 		col.Length = maxLen
+		col.Precision = precision
+		col.Scale = scale
 		if defaultId != "0" {
 			col.DefaultName = *defaultName
 			col.DefaultVal = *defaultVal
-- 
2.43.0


From 25a9440fd7126f5372d3042c6670231b63577339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 57/86] fix: indexes without CLUSTERED were taken for clustered
 ones (SQL Server), and a change of CLUSTERED was ignored

---
 schema/generator.go |  3 +++
 sqlparser/ast.go    |  6 ++++++
 sqlparser/parser.go | 14 +++++++-------
 sqlparser/parser.y  | 20 ++++++++++----------
 4 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index f240013..86a51d9 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1467,6 +1467,9 @@ func areSameIndexes(indexA Index, indexB Index) bool {
 	if indexA.primary != indexB.primary {
 		return false
 	}
+	if !indexA.primary && indexA.clustered != indexB.clustered {
+		return false
+	}
 	for len(indexA.columns) != len(indexB.columns) {
 		return false
 	}
diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index b0f854e..b4f24f1 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -3297,6 +3297,12 @@ const (
 	DescScr = "desc"
 )
 
+// The kinds of clustered_opt
+const (
+	ClusteredStr    = "clustered"
+	NonClusteredStr = "nonclustered"
+)
+
 // Format formats the node.
 func (node *Order) Format(buf *TrackedBuffer) {
 	if node, ok := node.Expr.(*NullVal); ok {
diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index d78b256..cf53efe 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -3692,7 +3692,7 @@ yydefault:
 					Name:      yyDollar[5].colIdent,
 					Type:      NewColIdent(""),
 					Unique:    bool(yyDollar[2].boolVal),
-					Clustered: bool(yyDollar[3].boolVal),
+					Clustered: yyDollar[3].str == ClusteredStr,
 					Included:  yyDollar[11].columns,
 					Where:     NewWhere(WhereStr, yyDollar[12].expr),
 					Options:   yyDollar[13].indexOptions,
@@ -5189,13 +5189,13 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:1732
 		{
-			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].str), Name: NewColIdent(string(yyDollar[2].bytes)), Unique: false, Clustered: yyDollar[3].boolVal}
+			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].str), Name: NewColIdent(string(yyDollar[2].bytes)), Unique: false, Clustered: BoolVal(yyDollar[3].str == ClusteredStr)}
 		}
 	case 299:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line sqlparser/parser.y:1736
 		{
-			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].str), Name: NewColIdent(string(yyDollar[2].bytes)), Unique: true, Clustered: yyDollar[4].boolVal}
+			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].str), Name: NewColIdent(string(yyDollar[2].bytes)), Unique: true, Clustered: BoolVal(yyDollar[4].str == ClusteredStr)}
 		}
 	case 300:
 		yyDollar = yyS[yypt-1 : yypt+1]
@@ -5317,7 +5317,7 @@ yydefault:
 //line sqlparser/parser.y:1838
 		{
 			yyVAL.indexDefinition = &IndexDefinition{
-				Info:      &IndexInfo{Type: string(yyDollar[3].bytes) + " " + string(yyDollar[4].bytes), Name: yyDollar[2].colIdent, Primary: true, Unique: true, Clustered: yyDollar[5].boolVal},
+				Info:      &IndexInfo{Type: string(yyDollar[3].bytes) + " " + string(yyDollar[4].bytes), Name: yyDollar[2].colIdent, Primary: true, Unique: true, Clustered: BoolVal(yyDollar[5].str != NonClusteredStr)},
 				Columns:   yyDollar[7].indexColumns,
 				Options:   yyDollar[9].indexOptions,
 				Partition: yyDollar[10].indexPartition,
@@ -5327,19 +5327,19 @@ yydefault:
 		yyDollar = yyS[yypt-0 : yypt+1]
 //line sqlparser/parser.y:1849
 		{
-			yyVAL.boolVal = BoolVal(true)
+			yyVAL.str = ""
 		}
 	case 318:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:1853
 		{
-			yyVAL.boolVal = BoolVal(true)
+			yyVAL.str = ClusteredStr
 		}
 	case 319:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:1857
 		{
-			yyVAL.boolVal = BoolVal(false)
+			yyVAL.str = NonClusteredStr
 		}
 	case 320:
 		yyDollar = yyS[yypt-0 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index f6e78f9..e75f225 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -333,10 +333,10 @@ func forceEOF(yylex interface{}) {
 %type <boolVal> no_inherit_opt
 %type <str> identity_behavior
 %type <sequence> sequence_opt
-%type <boolVal> clustered_opt not_for_replication_opt
+%type <boolVal> not_for_replication_opt
 %type <optVal> default_definition default_val
 %type <optVal> on_off
-%type <str> trigger_time trigger_event
+%type <str> trigger_time trigger_event clustered_opt
 %type <triggerBody> trigger_body
 %type <statement> trigger_statement
 
@@ -592,7 +592,7 @@ create_statement:
           Name: $5,
           Type: NewColIdent(""),
           Unique: bool($2),
-          Clustered: bool($3),
+          Clustered: $3 == ClusteredStr,
           Included: $11,
           Where: NewWhere(WhereStr, $12),
           Options: $13,
@@ -1734,11 +1734,11 @@ index_info:
   }
 | index_or_key ID clustered_opt
   {
-    $$ = &IndexInfo{Type: string($1), Name: NewColIdent(string($2)), Unique: false, Clustered: $3}
+    $$ = &IndexInfo{Type: string($1), Name: NewColIdent(string($2)), Unique: false, Clustered: BoolVal($3 == ClusteredStr)}
   }
 | index_or_key ID UNIQUE clustered_opt
   {
-    $$ = &IndexInfo{Type: string($1), Name: NewColIdent(string($2)), Unique: true, Clustered: $4}
+    $$ = &IndexInfo{Type: string($1), Name: NewColIdent(string($2)), Unique: true, Clustered: BoolVal($4 == ClusteredStr)}
   }
 
 index_or_key:
@@ -1841,25 +1841,25 @@ primary_key_definition:
   CONSTRAINT sql_id PRIMARY KEY clustered_opt '(' index_column_list ')' index_option_opt index_partition_opt
   {
     $$ = &IndexDefinition{
-      Info: &IndexInfo{Type: string($3) + " " + string($4), Name: $2, Primary: true, Unique: true, Clustered: $5},
+      Info: &IndexInfo{Type: string($3) + " " + string($4), Name: $2, Primary: true, Unique: true, Clustered: BoolVal($5 != NonClusteredStr)},
       Columns: $7,
       Options: $9,
       Partition: $10,
     }
   }
 
-/* For SQL Server */
+/* For SQL Server. Unless told otherwise, a primary key is clustered and an index is not. */
 clustered_opt:
   {
-    $$ = BoolVal(true)
+    $$ = ""
   }
 | CLUSTERED
   {
-    $$ = BoolVal(true)
+    $$ = ClusteredStr
   }
 | NONCLUSTERED
   {
-    $$ = BoolVal(false)
+    $$ = NonClusteredStr
   }
 
 /* For SQL Server */
-- 
2.43.0


From 1f50d45b5586b77f424481a9d34482ccf79f95ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 58/86] fix: views, checks, policies and triggers were written
 with MySQL's quotes for names and strings to the other databases

---
 schema/parser.go            | 24 ++++++++++++------------
 sqlparser/ast.go            | 29 +++++++++++++++++++++++++++--
 sqlparser/tracked_buffer.go |  3 +++
 3 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/schema/parser.go b/schema/parser.go
index a181e01..7745d81 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -99,7 +99,7 @@ func parseLength(val *sqlparser.SQLVal) (*int, error) {
 	return &intVal, nil
 }
 
-func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
+func parseTable(mode GeneratorMode, parserMode sqlparser.ParserMode, stmt *sqlparser.DDL) (Table, error) {
 	columns := []Column{}
 	indexes := []Index{}
 	foreignKeys := []ForeignKey{}
@@ -128,7 +128,7 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 		}
 		if parsedCol.Type.Check != nil {
 			column.check = &CheckDefinition{
-				definition:        sqlparser.String(parsedCol.Type.Check.Where.Expr),
+				definition:        sqlparser.StringForMode(parsedCol.Type.Check.Where.Expr, parserMode),
 				constraintName:    sqlparser.String(parsedCol.Type.Check.ConstraintName),
 				notForReplication: parsedCol.Type.Check.NotForReplication,
 			}
@@ -216,7 +216,7 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 	}, nil
 }
 
-func parseIndex(stmt *sqlparser.DDL) (Index, error) {
+func parseIndex(parserMode sqlparser.ParserMode, stmt *sqlparser.DDL) (Index, error) {
 	if stmt.IndexSpec == nil {
 		return Index{}, fmt.Errorf("stmt.IndexSpec was null on parseIndex: %#v", stmt)
 	}
@@ -244,7 +244,7 @@ func parseIndex(stmt *sqlparser.DDL) (Index, error) {
 		if parenExpr, ok := expr.(*sqlparser.ParenExpr); ok {
 			expr = parenExpr.Expr
 		}
-		where = sqlparser.String(expr)
+		where = sqlparser.StringForMode(expr, parserMode)
 	}
 
 	includedColumns := []string{}
@@ -309,7 +309,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 	case *sqlparser.DDL:
 		if stmt.Action == "create" {
 			// TODO: handle other create DDL as error?
-			table, err := parseTable(mode, stmt)
+			table, err := parseTable(mode, parserMode, stmt)
 			if err != nil {
 				return nil, err
 			}
@@ -318,7 +318,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 				table:     table,
 			}, nil
 		} else if stmt.Action == "create index" {
-			index, err := parseIndex(stmt)
+			index, err := parseIndex(parserMode, stmt)
 			if err != nil {
 				return nil, err
 			}
@@ -328,7 +328,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 				index:     index,
 			}, nil
 		} else if stmt.Action == "add index" {
-			index, err := parseIndex(stmt)
+			index, err := parseIndex(parserMode, stmt)
 			if err != nil {
 				return nil, err
 			}
@@ -338,7 +338,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 				index:     index,
 			}, nil
 		} else if stmt.Action == "add primary key" {
-			index, err := parseIndex(stmt)
+			index, err := parseIndex(parserMode, stmt)
 			if err != nil {
 				return nil, err
 			}
@@ -378,10 +378,10 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 			}
 			var using, withCheck string
 			if stmt.Policy.Using != nil {
-				using = sqlparser.String(stmt.Policy.Using.Expr)
+				using = sqlparser.StringForMode(stmt.Policy.Using.Expr, parserMode)
 			}
 			if stmt.Policy.WithCheck != nil {
-				withCheck = sqlparser.String(stmt.Policy.WithCheck.Expr)
+				withCheck = sqlparser.StringForMode(stmt.Policy.WithCheck.Expr, parserMode)
 			}
 			return &AddPolicy{
 				statement: ddl,
@@ -399,12 +399,12 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 			return &View{
 				statement:  ddl,
 				name:       stmt.View.Name.Name.String(),
-				definition: sqlparser.String(stmt.View.Definition),
+				definition: sqlparser.StringForMode(stmt.View.Definition, parserMode),
 			}, nil
 		} else if stmt.Action == "create trigger" {
 			body := []string{}
 			for _, triggerStatement := range stmt.Trigger.Body {
-				body = append(body, sqlparser.String(triggerStatement))
+				body = append(body, sqlparser.StringForMode(triggerStatement, parserMode))
 			}
 
 			return &Trigger{
diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index b4f24f1..8f5470f 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -213,6 +213,18 @@ func String(node SQLNode) string {
 	return buf.String()
 }
 
+// StringForMode is String, with names and strings quoted for the given database.
+func StringForMode(node SQLNode, mode ParserMode) string {
+	if node == nil {
+		return "<nil>"
+	}
+
+	buf := NewTrackedBuffer(nil)
+	buf.mode = mode
+	buf.Myprintf("%v", node)
+	return buf.String()
+}
+
 // Append appends the SQLNode to the buffer.
 func Append(buf *bytes.Buffer, node SQLNode) {
 	tbuf := &TrackedBuffer{
@@ -2513,7 +2525,13 @@ func NewValArgWithOpt(in []byte, opt *SQLVal) *SQLVal {
 func (node *SQLVal) Format(buf *TrackedBuffer) {
 	switch node.Type {
 	case StrVal:
-		sqltypes.MakeTrusted(sqltypes.VarBinary, node.Val).EncodeSQL(buf)
+		switch buf.mode {
+		case ParserModePostgres, ParserModeSQLite3, ParserModeMssql:
+			// A backslash is an ordinary character
+			buf.WriteString("'" + strings.Replace(string(node.Val), "'", "''", -1) + "'")
+		default:
+			sqltypes.MakeTrusted(sqltypes.VarBinary, node.Val).EncodeSQL(buf)
+		}
 	case IntVal, FloatVal, HexNum:
 		buf.Myprintf("%s", []byte(node.Val))
 	case HexVal:
@@ -3651,7 +3669,14 @@ func formatID(buf *TrackedBuffer, original, lowered string) {
 	return
 
 mustEscape:
-	buf.WriteString(Backtick(original))
+	switch buf.mode {
+	case ParserModePostgres:
+		buf.WriteString(`"` + strings.Replace(original, `"`, `""`, -1) + `"`)
+	case ParserModeMssql:
+		buf.WriteString("[" + strings.Replace(original, "]", "]]", -1) + "]")
+	default:
+		buf.WriteString(Backtick(original))
+	}
 }
 
 // formatRawID writes a name that is not quoted even if it is a keyword
diff --git a/sqlparser/tracked_buffer.go b/sqlparser/tracked_buffer.go
index ec421a5..b9a1f4b 100644
--- a/sqlparser/tracked_buffer.go
+++ b/sqlparser/tracked_buffer.go
@@ -32,10 +32,13 @@ type NodeFormatter func(buf *TrackedBuffer, node SQLNode)
 // use to format a node. By default(nil), it's FormatNode.
 // But you can supply a different formatting function if you
 // want to generate a query that's different from the default.
+// mode decides how names and strings are quoted. By default(0), it's
+// the way of MySQL.
 type TrackedBuffer struct {
 	*bytes.Buffer
 	bindLocations []bindLocation
 	nodeFormatter NodeFormatter
+	mode          ParserMode
 }
 
 // NewTrackedBuffer creates a new TrackedBuffer.
-- 
2.43.0


From 4524bebd30bbbdd2091ea135fcbd1f5ed109668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:14 +0000
Subject: [PATCH 59/86] fix: a changed primary key was added before the current
 one was dropped, and the same primary key under another name was dropped (SQL
 Server)

---
 schema/generator.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 86a51d9..94f9d83 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -486,6 +486,10 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 			case GeneratorModePostgres:
 				tableName := strings.SplitN(desired.table.name, ".", 2)[1] // without schema
 				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(tableName+"_pkey")))
+			case GeneratorModeMssql:
+				if desiredPrimaryKey != nil { // otherwise it's dropped as an absent index
+					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(currentPrimaryKey.name)))
+				}
 			default:
 			}
 		}
@@ -772,7 +776,12 @@ func (g *Generator) generateDDLsForAbsentForeignKey(currentForeignKey ForeignKey
 func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable Table, desiredTable Table) ([]string, error) {
 	ddls := []string{}
 
-	if currentIndex.primary {
+	if currentIndex.primary && g.mode == GeneratorModeMssql {
+		// If there's a desired primary key, it is the same as the current one or has replaced it already.
+		if desiredTable.PrimaryKey() == nil {
+			ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(currentIndex.name)))
+		}
+	} else if currentIndex.primary {
 		var primaryKeyColumn *Column
 		for _, column := range desiredTable.columns {
 			if column.keyOption == ColumnKeyPrimary {
@@ -782,11 +791,7 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 		}
 
 		if primaryKeyColumn == nil {
-			// If nil, it will be `DROP COLUMN`-ed and we can usually ignore it.
-			// However, it seems like you need to explicitly drop it first for MSSQL.
-			if g.mode == GeneratorModeMssql && (primaryKeyColumn == nil || primaryKeyColumn.name != currentIndex.columns[0].column) {
-				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(currentIndex.name)))
-			}
+			// If nil, it will be `DROP COLUMN`-ed and we can ignore it.
 		} else if primaryKeyColumn.name != currentIndex.columns[0].column { // TODO: check length of currentIndex.columns
 			// TODO: handle this. Rename primary key column...?
 			return ddls, fmt.Errorf(
-- 
2.43.0


From 186a34f61737351ad0e98a4ed3785dae5e79dd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:23 +0000
Subject: [PATCH 60/86] fix: the default getdate() was written without
 parentheses, and CURRENT_TIMESTAMP was taken for another default (SQL
 Server); names of check constraints were not quoted

---
 schema/generator.go | 21 +++++++++++++++++----
 schema/parser.go    |  8 +++++++-
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 94f9d83..b3078d7 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -4,6 +4,7 @@ package schema
 import (
 	"fmt"
 	"reflect"
+	"regexp"
 	"sort"
 	"strings"
 )
@@ -380,11 +381,11 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				if !areSameCheckDefinition(currentColumn.check, desiredColumn.check) || currentColumn.checkNoInherit != desiredColumn.checkNoInherit {
 					constraintName := fmt.Sprintf("%s_%s_check", strings.SplitN(desired.table.name, ".", 2)[1], desiredColumn.name) // without schema
 					if currentColumn.check != nil {
-						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), constraintName)
+						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeCheckName(constraintName))
 						ddls = append(ddls, ddl)
 					}
 					if desiredColumn.check != nil {
-						ddl := fmt.Sprintf("ALTER TABLE %s ADD CONSTRAINT %s CHECK (%s)", g.escapeTableName(desired.table.name), constraintName, desiredColumn.check.definition)
+						ddl := fmt.Sprintf("ALTER TABLE %s ADD CONSTRAINT %s CHECK (%s)", g.escapeTableName(desired.table.name), g.escapeCheckName(constraintName), desiredColumn.check.definition)
 						if desiredColumn.checkNoInherit {
 							ddl += " NO INHERIT"
 						}
@@ -398,7 +399,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					constraintName := fmt.Sprintf("%s_%s_check", strings.Replace(desired.table.name, "dbo.", "", 1), desiredColumn.name)
 					if currentColumn.check != nil {
 						currentConstraintName := currentColumn.check.constraintName
-						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), currentConstraintName)
+						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeCheckName(currentConstraintName))
 						ddls = append(ddls, ddl)
 					}
 					if desiredColumn.check != nil {
@@ -410,7 +411,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 						if desiredColumn.check.notForReplication {
 							replicationDefinition = " NOT FOR REPLICATION"
 						}
-						ddl := fmt.Sprintf("ALTER TABLE %s ADD CONSTRAINT %s CHECK%s (%s)", g.escapeTableName(desired.table.name), desiredConstraintName, replicationDefinition, desiredColumn.check.definition)
+						ddl := fmt.Sprintf("ALTER TABLE %s ADD CONSTRAINT %s CHECK%s (%s)", g.escapeTableName(desired.table.name), g.escapeCheckName(desiredConstraintName), replicationDefinition, desiredColumn.check.definition)
 						ddls = append(ddls, ddl)
 					}
 				}
@@ -1121,6 +1122,18 @@ func (g *Generator) escapeTableName(name string) string {
 	}
 }
 
+// The name of a check constraint is quoted only if it needs to be.
+func (g *Generator) escapeCheckName(name string) string {
+	pattern := "^[a-zA-Z_][a-zA-Z0-9_]*$"
+	if g.mode == GeneratorModePostgres { // where upper case letters need quotes
+		pattern = "^[a-z_][a-z0-9_]*$"
+	}
+	if regexp.MustCompile(pattern).MatchString(name) {
+		return name
+	}
+	return g.escapeSQLName(name)
+}
+
 func (g *Generator) escapeSQLName(name string) string {
 	switch g.mode {
 	case GeneratorModePostgres:
diff --git a/schema/parser.go b/schema/parser.go
index 7745d81..09cab7a 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -129,7 +129,7 @@ func parseTable(mode GeneratorMode, parserMode sqlparser.ParserMode, stmt *sqlpa
 		if parsedCol.Type.Check != nil {
 			column.check = &CheckDefinition{
 				definition:        sqlparser.StringForMode(parsedCol.Type.Check.Where.Expr, parserMode),
-				constraintName:    sqlparser.String(parsedCol.Type.Check.ConstraintName),
+				constraintName:    parsedCol.Type.Check.ConstraintName.String(),
 				notForReplication: parsedCol.Type.Check.NotForReplication,
 			}
 		}
@@ -549,6 +549,12 @@ func parseDefaultDefinition(mode GeneratorMode, opt *sqlparser.DefaultDefinition
 	if mode == GeneratorModeMysql && defaultVal.valueType == ValueTypeValArg && string(defaultVal.raw) == "now()" {
 		defaultVal.raw = []byte("current_timestamp") // NOW() is reported as CURRENT_TIMESTAMP
 	}
+	if mode == GeneratorModeMssql && defaultVal.valueType == ValueTypeValArg {
+		switch string(defaultVal.raw) {
+		case "getdate", "current_timestamp": // CURRENT_TIMESTAMP is reported as getdate()
+			defaultVal.raw = []byte("getdate()")
+		}
+	}
 
 	var constraintName string
 	if opt.ConstraintName.String() != "" {
-- 
2.43.0


From 6aaf43914dbc3ba540f25283c07560b78dc62fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:28 +0000
Subject: [PATCH 61/86] fix: a foreign key of several columns was exported as
 several foreign keys of one name, and the lines of a view were glued together
 (SQL Server)

---
 adapter/mssql/mssql.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 1472f8f..71fdfb0 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -393,7 +393,8 @@ func (d *MssqlDatabase) getForeignDefs(table string) ([]string, error) {
 	f.delete_referential_action_desc,
 	f.is_not_for_replication
 FROM sys.foreign_keys f INNER JOIN sys.foreign_key_columns fc ON f.OBJECT_ID = fc.constraint_object_id
-WHERE f.parent_object_id = OBJECT_ID(%s)`, objectName(table))
+WHERE f.parent_object_id = OBJECT_ID(%s)
+ORDER BY f.object_id, fc.constraint_column_id`, objectName(table))
 
 	rows, err := d.db.Query(query)
 	if err != nil {
@@ -401,7 +402,12 @@ WHERE f.parent_object_id = OBJECT_ID(%s)`, objectName(table))
 	}
 	defer rows.Close()
 
-	defs := make([]string, 0)
+	type foreignDef struct {
+		constraintName, foreignTableName string
+		columnNames, foreignColumnNames  []string
+		options                          string
+	}
+	foreignDefs := make([]*foreignDef, 0)
 	for rows.Next() {
 		var constraintName, columnName, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule string
 		var notForReplication bool
@@ -411,16 +417,25 @@ WHERE f.parent_object_id = OBJECT_ID(%s)`, objectName(table))
 		}
 		foreignUpdateRule = strings.Replace(foreignUpdateRule, "_", " ", -1)
 		foreignDeleteRule = strings.Replace(foreignDeleteRule, "_", " ", -1)
-		def := fmt.Sprintf("CONSTRAINT %s FOREIGN KEY (%s) REFERENCES %s (%s) ON UPDATE %s ON DELETE %s", quoteName(constraintName), quoteName(columnName), quoteName(foreignTableName), quoteName(foreignColumnName), foreignUpdateRule, foreignDeleteRule)
-		if notForReplication {
-			def += " NOT FOR REPLICATION"
+		if len(foreignDefs) == 0 || foreignDefs[len(foreignDefs)-1].constraintName != constraintName {
+			options := fmt.Sprintf("ON UPDATE %s ON DELETE %s", foreignUpdateRule, foreignDeleteRule)
+			if notForReplication {
+				options += " NOT FOR REPLICATION"
+			}
+			foreignDefs = append(foreignDefs, &foreignDef{constraintName: constraintName, foreignTableName: foreignTableName, options: options})
 		}
-		defs = append(defs, def)
+		def := foreignDefs[len(foreignDefs)-1]
+		def.columnNames = append(def.columnNames, quoteName(columnName))
+		def.foreignColumnNames = append(def.foreignColumnNames, quoteName(foreignColumnName))
 	}
 	if err := rows.Err(); err != nil {
 		return nil, err
 	}
 
+	defs := make([]string, 0)
+	for _, def := range foreignDefs {
+		defs = append(defs, fmt.Sprintf("CONSTRAINT %s FOREIGN KEY (%s) REFERENCES %s (%s) %s", quoteName(def.constraintName), strings.Join(def.columnNames, ", "), quoteName(def.foreignTableName), strings.Join(def.foreignColumnNames, ", "), def.options))
+	}
 	return defs, nil
 }
 
@@ -434,7 +449,6 @@ func boolToOnOff(in bool) string {
 
 var (
 	suffixSemicolon = regexp.MustCompile(`;$`)
-	spaces          = regexp.MustCompile(`[ ]+`)
 )
 
 func (d *MssqlDatabase) Views() ([]string, error) {
@@ -463,9 +477,7 @@ INNER JOIN sys.sql_modules
 			return nil, err
 		}
 		definition = strings.TrimSpace(definition)
-		definition = strings.ReplaceAll(definition, "\n", "")
 		definition = suffixSemicolon.ReplaceAllString(definition, "")
-		definition = spaces.ReplaceAllString(definition, " ")
 		ddls = append(ddls, definition)
 	}
 	if err := rows.Err(); err != nil {
-- 
2.43.0


From 3ab3046b03d11535835c111b072acb653cab7dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:28 +0000
Subject: [PATCH 62/86] fix: the names of the default and the check of an added
 column were dropped (SQL Server)

---
 schema/generator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index b3078d7..c815aa8 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -873,6 +873,9 @@ func (g *Generator) generateColumnDefinition(column Column, enableUnique bool) (
 		if err != nil {
 			return "", fmt.Errorf("%s in column: %#v", err.Error(), column)
 		}
+		if g.mode == GeneratorModeMssql && column.defaultDef.constraintName != "" {
+			definition += fmt.Sprintf("CONSTRAINT %s ", g.escapeSQLName(column.defaultDef.constraintName))
+		}
 		definition += def + " "
 	}
 
@@ -885,6 +888,9 @@ func (g *Generator) generateColumnDefinition(column Column, enableUnique bool) (
 	}
 
 	if column.check != nil {
+		if g.mode == GeneratorModeMssql && column.check.constraintName != "" {
+			definition += fmt.Sprintf("CONSTRAINT %s ", g.escapeSQLName(column.check.constraintName))
+		}
 		definition += "CHECK "
 		if column.check.notForReplication {
 			definition += "NOT FOR REPLICATION "
-- 
2.43.0


From 374e11557eb3ce38067b62644dca804b28c57037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:35 +0000
Subject: [PATCH 63/86] fix: a foreign key of several columns was exported as a
 foreign key for each pair of columns (PostgreSQL)

---
 adapter/postgres/postgres.go | 81 +++++++++++++++++++++++++-----------
 1 file changed, 57 insertions(+), 24 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 962afcb..c7c0637 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -341,24 +341,21 @@ WHERE constraint_type = 'PRIMARY KEY' AND tc.table_schema=$1 AND tc.table_name=$
 	return columnNames, nil
 }
 
-// refs: https://gist.github.com/PickledDragon/dd41f4e72b428175354d
 func (d *PostgresDatabase) getForeginDefs(table string) ([]string, error) {
 	const query = `SELECT
-	tc.table_schema, tc.constraint_name, tc.table_name, kcu.column_name,
-	ccu.table_schema AS foreign_table_schema,
-	ccu.table_name AS foreign_table_name,
-	ccu.column_name AS foreign_column_name,
-	rc.update_rule AS foreign_update_rule,
-	rc.delete_rule AS foreign_delete_rule
+	n.nspname, con.conname, c.relname, a.attname,
+	fn.nspname, fc.relname, fa.attname,
+	con.confupdtype, con.confdeltype
 FROM
-	information_schema.table_constraints AS tc
-	JOIN information_schema.key_column_usage AS kcu
-		ON tc.constraint_schema = kcu.constraint_schema AND tc.constraint_name = kcu.constraint_name AND tc.table_name = kcu.table_name
-	JOIN information_schema.constraint_column_usage AS ccu
-		ON tc.constraint_schema = ccu.constraint_schema AND tc.constraint_name = ccu.constraint_name
-	JOIN information_schema.referential_constraints AS rc
-		ON tc.constraint_schema = rc.constraint_schema AND tc.constraint_name = rc.constraint_name
-WHERE constraint_type = 'FOREIGN KEY' AND tc.table_schema=$1 AND tc.table_name=$2`
+	pg_constraint con
+	JOIN pg_class c ON c.oid = con.conrelid
+	JOIN pg_namespace n ON n.oid = c.relnamespace
+	JOIN pg_attribute a ON a.attrelid = con.conrelid AND a.attnum = ANY (con.conkey)
+	JOIN pg_class fc ON fc.oid = con.confrelid
+	JOIN pg_namespace fn ON fn.oid = fc.relnamespace
+	JOIN pg_attribute fa ON fa.attrelid = con.confrelid AND array_position(con.confkey, fa.attnum) = array_position(con.conkey, a.attnum)
+WHERE con.contype = 'f' AND n.nspname = $1 AND c.relname = $2
+ORDER BY con.conname, array_position(con.conkey, a.attnum)`
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
 	if err != nil {
@@ -366,26 +363,62 @@ WHERE constraint_type = 'FOREIGN KEY' AND tc.table_schema=$1 AND tc.table_name=$
 	}
 	defer rows.Close()
 
-	defs := make([]string, 0)
+	type foreignDef struct {
+		constraintName             string
+		prefix, references         string
+		columnNames, foreignNames  []string
+		updateAction, deleteAction string
+	}
+	foreignDefs := make([]*foreignDef, 0)
 	for rows.Next() {
-		var tableSchema, constraintName, tableName, columnName, foreignTableSchema, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule string
-		err = rows.Scan(&tableSchema, &constraintName, &tableName, &columnName, &foreignTableSchema, &foreignTableName, &foreignColumnName, &foreignUpdateRule, &foreignDeleteRule)
+		var tableSchema, constraintName, tableName, columnName, foreignTableSchema, foreignTableName, foreignColumnName, updateType, deleteType string
+		err = rows.Scan(&tableSchema, &constraintName, &tableName, &columnName, &foreignTableSchema, &foreignTableName, &foreignColumnName, &updateType, &deleteType)
 		if err != nil {
 			return nil, err
 		}
-		def := fmt.Sprintf(
-			"ALTER TABLE ONLY %s.%s ADD CONSTRAINT %s FOREIGN KEY (%s) REFERENCES %s.%s(%s) ON UPDATE %s ON DELETE %s",
-			escapeName(tableSchema), escapeName(tableName), escapeName(constraintName), escapeName(columnName),
-			escapeName(foreignTableSchema), escapeName(foreignTableName), escapeName(foreignColumnName), foreignUpdateRule, foreignDeleteRule,
-		)
-		defs = append(defs, def)
+		if len(foreignDefs) == 0 || foreignDefs[len(foreignDefs)-1].constraintName != constraintName {
+			foreignDefs = append(foreignDefs, &foreignDef{
+				constraintName: constraintName,
+				prefix:         fmt.Sprintf("ALTER TABLE ONLY %s.%s ADD CONSTRAINT %s", escapeName(tableSchema), escapeName(tableName), escapeName(constraintName)),
+				references:     fmt.Sprintf("%s.%s", escapeName(foreignTableSchema), escapeName(foreignTableName)),
+				updateAction:   foreignKeyAction(updateType),
+				deleteAction:   foreignKeyAction(deleteType),
+			})
+		}
+		def := foreignDefs[len(foreignDefs)-1]
+		def.columnNames = append(def.columnNames, escapeName(columnName))
+		def.foreignNames = append(def.foreignNames, escapeName(foreignColumnName))
 	}
 	if err := rows.Err(); err != nil {
 		return nil, err
 	}
+
+	defs := make([]string, 0)
+	for _, def := range foreignDefs {
+		defs = append(defs, fmt.Sprintf(
+			"%s FOREIGN KEY (%s) REFERENCES %s(%s) ON UPDATE %s ON DELETE %s",
+			def.prefix, strings.Join(def.columnNames, ", "), def.references, strings.Join(def.foreignNames, ", "), def.updateAction, def.deleteAction,
+		))
+	}
 	return defs, nil
 }
 
+// Spell pg_constraint.confupdtype and pg_constraint.confdeltype
+func foreignKeyAction(actionType string) string {
+	switch actionType {
+	case "r":
+		return "RESTRICT"
+	case "c":
+		return "CASCADE"
+	case "n":
+		return "SET NULL"
+	case "d":
+		return "SET DEFAULT"
+	default:
+		return "NO ACTION"
+	}
+}
+
 var (
 	policyRolesPrefixRegex = regexp.MustCompile(`^{`)
 	policyRolesSuffixRegex = regexp.MustCompile(`}$`)
-- 
2.43.0


From e0af7aeab4dfe2f5b955f9da67d3e1942b030208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:33 +0000
Subject: [PATCH 64/86] fix: a foreign key that references other columns or
 another table under the same name was taken for unchanged; filters of SQL
 Server's indexes were not exported

---
 adapter/mssql/mssql.go | 12 +++++++++---
 schema/generator.go    | 11 ++++++++++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 71fdfb0..f730c62 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -162,6 +162,9 @@ func buildDumpTableDDL(table string, columns []column, indexDefs []*indexDef, fo
 		if len(indexDef.included) > 0 {
 			fmt.Fprintf(&queryBuilder, " INCLUDE (%s)", strings.Join(indexDef.included, ", "))
 		}
+		if indexDef.filter != "" {
+			fmt.Fprintf(&queryBuilder, " WHERE %s", indexDef.filter)
+		}
 		if len(indexDef.options) > 0 {
 			fmt.Fprint(&queryBuilder, " WITH (")
 			for i, option := range indexDef.options {
@@ -282,6 +285,7 @@ type indexDef struct {
 	unique    bool
 	indexType string
 	included  []string
+	filter    string
 	options   []indexOption
 }
 
@@ -302,7 +306,8 @@ func (d *MssqlDatabase) getIndexDefs(table string) ([]*indexDef, error) {
 	st.no_recompute,
 	st.is_incremental,
 	ind.allow_row_locks,
-	ind.allow_page_locks
+	ind.allow_page_locks,
+	ind.filter_definition
 FROM sys.indexes ind
 INNER JOIN sys.stats st ON ind.object_id = st.object_id AND ind.index_id = st.stats_id
 WHERE ind.object_id = OBJECT_ID(%s)`, objectName(table))
@@ -315,9 +320,10 @@ WHERE ind.object_id = OBJECT_ID(%s)`, objectName(table))
 	indexDefMap := make(map[string]*indexDef)
 	indexDefs := make([]*indexDef, 0)
 	var indexName, typeDesc, fillfactor string
+	var filter sql.NullString
 	var isPrimary, isUnique, padIndex, ignoreDupKey, noRecompute, incremental, rowLocks, pageLocks bool
 	for rows.Next() {
-		err = rows.Scan(&indexName, &isPrimary, &isUnique, &typeDesc, &padIndex, &fillfactor, &ignoreDupKey, &noRecompute, &incremental, &rowLocks, &pageLocks)
+		err = rows.Scan(&indexName, &isPrimary, &isUnique, &typeDesc, &padIndex, &fillfactor, &ignoreDupKey, &noRecompute, &incremental, &rowLocks, &pageLocks, &filter)
 		if err != nil {
 			return nil, err
 		}
@@ -332,7 +338,7 @@ WHERE ind.object_id = OBJECT_ID(%s)`, objectName(table))
 			{name: "ALLOW_PAGE_LOCKS", value: boolToOnOff(pageLocks)},
 		}
 
-		definition := &indexDef{name: indexName, columns: []string{}, primary: isPrimary, unique: isUnique, indexType: typeDesc, included: []string{}, options: options}
+		definition := &indexDef{name: indexName, columns: []string{}, primary: isPrimary, unique: isUnique, indexType: typeDesc, included: []string{}, filter: filter.String, options: options}
 		indexDefMap[indexName] = definition
 		indexDefs = append(indexDefs, definition)
 	}
diff --git a/schema/generator.go b/schema/generator.go
index c815aa8..d0ffe92 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1545,7 +1545,16 @@ func (g *Generator) areSameForeignKeys(foreignKeyA ForeignKey, foreignKeyB Forei
 	if foreignKeyA.notForReplication != foreignKeyB.notForReplication {
 		return false
 	}
-	// TODO: check index, reference
+	if !strings.EqualFold(foreignKeyA.referenceName, foreignKeyB.referenceName) {
+		return false
+	}
+	if !strings.EqualFold(strings.Join(foreignKeyA.indexColumns, ","), strings.Join(foreignKeyB.indexColumns, ",")) {
+		return false
+	}
+	if !strings.EqualFold(strings.Join(foreignKeyA.referenceColumns, ","), strings.Join(foreignKeyB.referenceColumns, ",")) {
+		return false
+	}
+	// TODO: check index
 	return true
 }
 
-- 
2.43.0


From 056d49e3d540373ea65542010f302905cc99b706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:54 +0000
Subject: [PATCH 65/86] fix: keep the schema of SQL Server tables

---
 schema/generator.go |  2 +-
 schema/parser.go    | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index d0ffe92..bfdf939 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -396,7 +396,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				// TODO: support adding a column's `references`
 			case GeneratorModeMssql:
 				if !areSameCheckDefinition(currentColumn.check, desiredColumn.check) || currentColumn.checkNoInherit != desiredColumn.checkNoInherit {
-					constraintName := fmt.Sprintf("%s_%s_check", strings.Replace(desired.table.name, "dbo.", "", 1), desiredColumn.name)
+					constraintName := fmt.Sprintf("%s_%s_check", strings.SplitN(desired.table.name, ".", 2)[1], desiredColumn.name)
 					if currentColumn.check != nil {
 						currentConstraintName := currentColumn.check.constraintName
 						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeCheckName(currentConstraintName))
diff --git a/schema/parser.go b/schema/parser.go
index 09cab7a..5e1ace6 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -410,7 +410,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 			return &Trigger{
 				statement: ddl,
 				name:      stmt.Trigger.Name.String(),
-				tableName: stmt.Trigger.TableName.Name.String(),
+				tableName: normalizedTableName(mode, stmt.Trigger.TableName),
 				time:      stmt.Trigger.Time,
 				event:     stmt.Trigger.Event,
 				body:      body,
@@ -510,14 +510,16 @@ func normalizeCollate(collate string, table sqlparser.TableSpec) string {
 	}
 }
 
-// Qualify Postgres schema
+// Qualify Postgres and SQL Server schema
 func normalizedTableName(mode GeneratorMode, tableName sqlparser.TableName) string {
 	table := tableName.Name.String()
-	if mode == GeneratorModePostgres {
+	if mode == GeneratorModePostgres || mode == GeneratorModeMssql {
 		if len(tableName.Qualifier.String()) > 0 {
 			table = tableName.Qualifier.String() + "." + table
-		} else {
+		} else if mode == GeneratorModePostgres {
 			table = "public." + table
+		} else {
+			table = "dbo." + table
 		}
 	}
 	return table
-- 
2.43.0


From e37b8a03c0a09465e8542b20580a7cff40eb1525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 66/86] fix: keep the schema of a table referenced by a foreign
 key

---
 adapter/mssql/mssql.go | 21 +++++++++++++--------
 schema/generator.go    | 16 ++++++++++++++--
 schema/parser.go       |  4 ++--
 sqlparser/ast.go       |  2 +-
 sqlparser/parser.go    |  2 +-
 sqlparser/parser.y     |  2 +-
 6 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index f730c62..1bef3c6 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -393,7 +393,8 @@ func (d *MssqlDatabase) getForeignDefs(table string) ([]string, error) {
 	query := fmt.Sprintf(`SELECT
 	f.name,
 	COL_NAME(f.parent_object_id, fc.parent_column_id),
-	OBJECT_NAME(f.referenced_object_id)_id,
+	OBJECT_SCHEMA_NAME(f.referenced_object_id),
+	OBJECT_NAME(f.referenced_object_id),
 	COL_NAME(f.referenced_object_id, fc.referenced_column_id),
 	f.update_referential_action_desc,
 	f.delete_referential_action_desc,
@@ -409,18 +410,22 @@ ORDER BY f.object_id, fc.constraint_column_id`, objectName(table))
 	defer rows.Close()
 
 	type foreignDef struct {
-		constraintName, foreignTableName string
-		columnNames, foreignColumnNames  []string
-		options                          string
+		constraintName, references      string
+		columnNames, foreignColumnNames []string
+		options                         string
 	}
 	foreignDefs := make([]*foreignDef, 0)
 	for rows.Next() {
-		var constraintName, columnName, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule string
+		var constraintName, columnName, foreignSchemaName, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule string
 		var notForReplication bool
-		err = rows.Scan(&constraintName, &columnName, &foreignTableName, &foreignColumnName, &foreignUpdateRule, &foreignDeleteRule, &notForReplication)
+		err = rows.Scan(&constraintName, &columnName, &foreignSchemaName, &foreignTableName, &foreignColumnName, &foreignUpdateRule, &foreignDeleteRule, &notForReplication)
 		if err != nil {
 			return nil, err
 		}
+		references := quoteName(foreignTableName)
+		if foreignSchemaName != "dbo" {
+			references = quoteName(foreignSchemaName) + "." + references
+		}
 		foreignUpdateRule = strings.Replace(foreignUpdateRule, "_", " ", -1)
 		foreignDeleteRule = strings.Replace(foreignDeleteRule, "_", " ", -1)
 		if len(foreignDefs) == 0 || foreignDefs[len(foreignDefs)-1].constraintName != constraintName {
@@ -428,7 +433,7 @@ ORDER BY f.object_id, fc.constraint_column_id`, objectName(table))
 			if notForReplication {
 				options += " NOT FOR REPLICATION"
 			}
-			foreignDefs = append(foreignDefs, &foreignDef{constraintName: constraintName, foreignTableName: foreignTableName, options: options})
+			foreignDefs = append(foreignDefs, &foreignDef{constraintName: constraintName, references: references, options: options})
 		}
 		def := foreignDefs[len(foreignDefs)-1]
 		def.columnNames = append(def.columnNames, quoteName(columnName))
@@ -440,7 +445,7 @@ ORDER BY f.object_id, fc.constraint_column_id`, objectName(table))
 
 	defs := make([]string, 0)
 	for _, def := range foreignDefs {
-		defs = append(defs, fmt.Sprintf("CONSTRAINT %s FOREIGN KEY (%s) REFERENCES %s (%s) %s", quoteName(def.constraintName), strings.Join(def.columnNames, ", "), quoteName(def.foreignTableName), strings.Join(def.foreignColumnNames, ", "), def.options))
+		defs = append(defs, fmt.Sprintf("CONSTRAINT %s FOREIGN KEY (%s) REFERENCES %s (%s) %s", quoteName(def.constraintName), strings.Join(def.columnNames, ", "), def.references, strings.Join(def.foreignColumnNames, ", "), def.options))
 	}
 	return defs, nil
 }
diff --git a/schema/generator.go b/schema/generator.go
index bfdf939..a2c57cc 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -757,7 +757,7 @@ func (g *Generator) generateDDLsForAbsentForeignKey(currentForeignKey ForeignKey
 	case GeneratorModePostgres, GeneratorModeMssql:
 		var referencesColumn *Column
 		for _, column := range desiredTable.columns {
-			if column.references == currentForeignKey.referenceName {
+			if column.references != "" && column.references == strings.TrimPrefix(currentForeignKey.referenceName, "public.") {
 				referencesColumn = &column
 				break
 			}
@@ -1072,7 +1072,7 @@ func (g *Generator) generateForeignKeyDefinition(foreignKey ForeignKey) string {
 
 	definition += fmt.Sprintf(
 		"(%s) REFERENCES %s (%s) ",
-		strings.Join(indexColumns, ","), g.escapeSQLName(foreignKey.referenceName),
+		strings.Join(indexColumns, ","), g.escapeReferenceName(foreignKey.referenceName),
 		strings.Join(referenceColumns, ","),
 	)
 
@@ -1128,6 +1128,18 @@ func (g *Generator) escapeTableName(name string) string {
 	}
 }
 
+// The table which a foreign key references, without its schema if it's the default one.
+func (g *Generator) escapeReferenceName(name string) string {
+	switch {
+	case g.mode == GeneratorModePostgres && strings.HasPrefix(name, "public."):
+		return g.escapeSQLName(strings.TrimPrefix(name, "public."))
+	case g.mode == GeneratorModeMssql && strings.HasPrefix(name, "dbo."):
+		return g.escapeSQLName(strings.TrimPrefix(name, "dbo."))
+	default:
+		return g.escapeTableName(name)
+	}
+}
+
 // The name of a check constraint is quoted only if it needs to be.
 func (g *Generator) escapeCheckName(name string) string {
 	pattern := "^[a-zA-Z_][a-zA-Z0-9_]*$"
diff --git a/schema/parser.go b/schema/parser.go
index 5e1ace6..e2db8d3 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -199,7 +199,7 @@ func parseTable(mode GeneratorMode, parserMode sqlparser.ParserMode, stmt *sqlpa
 			constraintName:    foreignKeyDef.ConstraintName.String(),
 			indexName:         foreignKeyDef.IndexName.String(),
 			indexColumns:      indexColumns,
-			referenceName:     foreignKeyDef.ReferenceName.String(),
+			referenceName:     normalizedTableName(mode, foreignKeyDef.ReferenceName),
 			referenceColumns:  referenceColumns,
 			onDelete:          foreignKeyDef.OnDelete.String(),
 			onUpdate:          foreignKeyDef.OnUpdate.String(),
@@ -364,7 +364,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 					constraintName:    stmt.ForeignKey.ConstraintName.String(),
 					indexName:         stmt.ForeignKey.IndexName.String(),
 					indexColumns:      indexColumns,
-					referenceName:     stmt.ForeignKey.ReferenceName.String(),
+					referenceName:     normalizedTableName(mode, stmt.ForeignKey.ReferenceName),
 					referenceColumns:  referenceColumns,
 					onDelete:          stmt.ForeignKey.OnDelete.String(),
 					onUpdate:          stmt.ForeignKey.OnUpdate.String(),
diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 8f5470f..d1257a4 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -1418,7 +1418,7 @@ type ForeignKeyDefinition struct {
 	ConstraintName    ColIdent
 	IndexName         ColIdent
 	IndexColumns      []ColIdent
-	ReferenceName     ColIdent
+	ReferenceName     TableName
 	ReferenceColumns  []ColIdent
 	OnDelete          ColIdent
 	OnUpdate          ColIdent
diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index cf53efe..7c0b0d9 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -5284,7 +5284,7 @@ yydefault:
 				ConstraintName:   yyDollar[2].colIdent,
 				IndexName:        yyDollar[5].colIdent,
 				IndexColumns:     yyDollar[7].colIdents,
-				ReferenceName:    NewColIdent(yyDollar[10].tableName.Name.String()),
+				ReferenceName:    yyDollar[10].tableName,
 				ReferenceColumns: yyDollar[12].colIdents,
 			}
 		}
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index e75f225..4359628 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1814,7 +1814,7 @@ foreign_key_without_options:
       ConstraintName: $2,
       IndexName: $5,
       IndexColumns: $7,
-      ReferenceName: NewColIdent($10.Name.String()),
+      ReferenceName: $10,
       ReferenceColumns: $12,
     }
   }
-- 
2.43.0


From cc46e843880078688a8b1e4224a11daab43d1cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:53 +0000
Subject: [PATCH 67/86] fix: tell apart views of different schemas

---
 adapter/postgres/postgres.go | 2 +-
 schema/parser.go             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index c7c0637..6e64ed2 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -67,7 +67,7 @@ var (
 func (d *PostgresDatabase) Views() ([]string, error) {
 	rows, err := d.db.Query(
 		`select table_schema, table_name, definition from information_schema.tables
-		 inner join pg_views on table_name = viewname
+		 inner join pg_views on table_schema = schemaname and table_name = viewname
 		 where table_schema not in ('information_schema', 'pg_catalog')
 		 and (table_schema != 'public' or table_name != 'pg_buffercache')
 		 and table_type = 'VIEW';`,
diff --git a/schema/parser.go b/schema/parser.go
index e2db8d3..42705ed 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -398,7 +398,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 		} else if stmt.Action == "create view" {
 			return &View{
 				statement:  ddl,
-				name:       stmt.View.Name.Name.String(),
+				name:       normalizedTableName(mode, stmt.View.Name),
 				definition: sqlparser.StringForMode(stmt.View.Definition, parserMode),
 			}, nil
 		} else if stmt.Action == "create trigger" {
-- 
2.43.0


From 1d866bbe421eaf3e63be11ac03bb8447a4ebbbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:00 +0000
Subject: [PATCH 68/86] fix: connect to MySQL with the given user, password,
 database and host as they are

---
 adapter/mysql/mysql.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index 851bc1d..4af1651 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -3,6 +3,8 @@ package mysql
 import (
 	"database/sql"
 	"fmt"
+	"net"
+	"strconv"
 	"strings"
 
 	driver "github.com/go-sql-driver/mysql"
@@ -15,13 +17,13 @@ type MysqlDatabase struct {
 }
 
 func NewDatabase(config adapter.Config) (adapter.Database, error) {
-	db, err := sql.Open("mysql", mysqlBuildDSN(config))
+	connector, err := driver.NewConnector(mysqlConfig(config))
 	if err != nil {
 		return nil, err
 	}
 
 	return &MysqlDatabase{
-		db:     db,
+		db:     sql.OpenDB(connector),
 		config: config,
 	}, nil
 }
@@ -118,17 +120,18 @@ func quoteName(name string) string {
 	return "`" + strings.ReplaceAll(name, "`", "``") + "`"
 }
 
-func mysqlBuildDSN(config adapter.Config) string {
+// mysqlConfig is not formatted as a DSN, which can't have every character in its parts.
+func mysqlConfig(config adapter.Config) *driver.Config {
 	c := driver.NewConfig()
 	c.User = config.User
 	c.Passwd = config.Password
 	c.DBName = config.DbName
 	if config.Socket == "" {
 		c.Net = "tcp"
-		c.Addr = fmt.Sprintf("%s:%d", config.Host, config.Port)
+		c.Addr = net.JoinHostPort(strings.Trim(config.Host, "[]"), strconv.Itoa(config.Port))
 	} else {
 		c.Net = "unix"
 		c.Addr = config.Socket
 	}
-	return c.FormatDSN()
+	return c
 }
-- 
2.43.0


From a5ab566570a6a43e031d7905e99e9aa2db5e7619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:02 +0000
Subject: [PATCH 69/86] fix: connect to PostgreSQL with the given user,
 password, database and socket as they are

---
 adapter/postgres/postgres.go | 24 +++++++++++++-----------
 cmd/psqldef/psqldef.go       |  3 ++-
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 6e64ed2..ecd9c6c 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -472,27 +472,29 @@ func (d *PostgresDatabase) Close() error {
 }
 
 func postgresBuildDSN(config adapter.Config) string {
-	user := config.User
-	password := config.Password
-	database := config.DbName
-	host := ""
+	query := url.Values{}
 	if config.Socket == "" {
-		host = fmt.Sprintf("%s:%d", config.Host, config.Port)
+		query.Set("host", strings.Trim(config.Host, "[]"))
 	} else {
-		host = config.Socket
+		query.Set("host", config.Socket)
 	}
+	query.Set("port", strconv.Itoa(config.Port))
 
-	var options []string
 	if sslmode, ok := os.LookupEnv("PGSSLMODE"); ok { // TODO: have this in adapter.Config, or standardize config with DSN?
-		options = append(options, fmt.Sprintf("sslmode=%s", sslmode)) // TODO: uri escape
+		query.Set("sslmode", sslmode)
 	}
 
 	if sslrootcert, ok := os.LookupEnv("PGSSLROOTCERT"); ok { // TODO: have this in adapter.Config, or standardize config with DSN?
-		options = append(options, fmt.Sprintf("sslrootcert=%s", sslrootcert))
+		query.Set("sslrootcert", sslrootcert)
 	}
 
-	// `QueryEscape` instead of `PathEscape` so that colon can be escaped.
-	return fmt.Sprintf("postgres://%s:%s@%s/%s?%s", url.QueryEscape(user), url.QueryEscape(password), host, database, strings.Join(options, "&"))
+	u := &url.URL{
+		Scheme:   "postgres",
+		User:     url.UserPassword(config.User, config.Password),
+		Path:     "/" + config.DbName,
+		RawQuery: query.Encode(),
+	}
+	return u.String()
 }
 
 // parenthesize adds the parentheses that pg_policies leaves out around simple expressions.
diff --git a/cmd/psqldef/psqldef.go b/cmd/psqldef/psqldef.go
index 220153e..b45722a 100644
--- a/cmd/psqldef/psqldef.go
+++ b/cmd/psqldef/psqldef.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"log"
 	"os"
+	"strings"
 	"syscall"
 
 	"github.com/jessevdk/go-flags"
@@ -89,7 +90,7 @@ func parseOptions(args []string) (adapter.Config, *sqldef.Options) {
 		Host:     opts.Host,
 		Port:     int(opts.Port),
 	}
-	if _, err := os.Stat(config.Host); !os.IsNotExist(err) {
+	if strings.HasPrefix(config.Host, "/") {
 		config.Socket = config.Host
 	}
 	return config, &options
-- 
2.43.0


From b6e8b563a76acf600e90a3bc3ff3d5a9d681dc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 70/86] fix: connect to SQL Server at an IPv6 address

---
 adapter/mssql/mssql.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 1bef3c6..a0da057 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -3,6 +3,7 @@ package mssql
 import (
 	"database/sql"
 	"fmt"
+	"net"
 	"net/url"
 	"regexp"
 	"strconv"
@@ -540,7 +541,7 @@ func mssqlBuildDSN(config adapter.Config) string {
 	u := &url.URL{
 		Scheme:   "sqlserver",
 		User:     url.UserPassword(config.User, config.Password),
-		Host:     fmt.Sprintf("%s:%d", config.Host, config.Port),
+		Host:     net.JoinHostPort(strings.Trim(config.Host, "[]"), strconv.Itoa(config.Port)),
 		RawQuery: query.Encode(),
 	}
 	return u.String()
-- 
2.43.0


From 3e33a538a8318465254446851d3b8c0299d8ebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 71/86] fix: take option values as they are, with their quotes

---
 cmd/mssqldef/mssqldef.go     |  8 ++++----
 cmd/mysqldef/mysqldef.go     | 10 +++++-----
 cmd/psqldef/psqldef.go       |  8 ++++----
 cmd/sqlite3def/sqlite3def.go |  2 +-
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/cmd/mssqldef/mssqldef.go b/cmd/mssqldef/mssqldef.go
index b99b028..ef0a2e4 100644
--- a/cmd/mssqldef/mssqldef.go
+++ b/cmd/mssqldef/mssqldef.go
@@ -20,12 +20,12 @@ var version string
 // TODO: Support `sqldef schema.sql -opt val...`
 func parseOptions(args []string) (adapter.Config, *sqldef.Options) {
 	var opts struct {
-		User     string `short:"U" long:"user" description:"MSSQL user name" value-name:"user_name" default:"sa"`
-		Password string `short:"P" long:"password" description:"MSSQL user password, overridden by $MSSQL_PWD" value-name:"password"`
-		Host     string `short:"h" long:"host" description:"Host to connect to the MSSQL server" value-name:"host_name" default:"127.0.0.1"`
+		User     string `short:"U" long:"user" unquote:"false" description:"MSSQL user name" value-name:"user_name" default:"sa"`
+		Password string `short:"P" long:"password" unquote:"false" description:"MSSQL user password, overridden by $MSSQL_PWD" value-name:"password"`
+		Host     string `short:"h" long:"host" unquote:"false" description:"Host to connect to the MSSQL server" value-name:"host_name" default:"127.0.0.1"`
 		Port     uint   `short:"p" long:"port" description:"Port used for the connection" value-name:"port_num" default:"1433"`
 		Prompt   bool   `long:"password-prompt" description:"Force MSSQL user password prompt"`
-		File     string `long:"file" description:"Read schema SQL from the file, rather than stdin" value-name:"sql_file" default:"-"`
+		File     string `long:"file" unquote:"false" description:"Read schema SQL from the file, rather than stdin" value-name:"sql_file" default:"-"`
 		DryRun   bool   `long:"dry-run" description:"Don't run DDLs but just show them"`
 		Export   bool   `long:"export" description:"Just dump the current schema to stdout"`
 		SkipDrop bool   `long:"skip-drop" description:"Skip destructive changes such as DROP"`
diff --git a/cmd/mysqldef/mysqldef.go b/cmd/mysqldef/mysqldef.go
index 700dc9a..b5fec8e 100644
--- a/cmd/mysqldef/mysqldef.go
+++ b/cmd/mysqldef/mysqldef.go
@@ -20,13 +20,13 @@ var version string
 // TODO: Support `sqldef schema.sql -opt val...`
 func parseOptions(args []string) (adapter.Config, *sqldef.Options) {
 	var opts struct {
-		User     string `short:"u" long:"user" description:"MySQL user name" value-name:"user_name" default:"root"`
-		Password string `short:"p" long:"password" description:"MySQL user password, overridden by $MYSQL_PWD" value-name:"password"`
-		Host     string `short:"h" long:"host" description:"Host to connect to the MySQL server" value-name:"host_name" default:"127.0.0.1"`
+		User     string `short:"u" long:"user" unquote:"false" description:"MySQL user name" value-name:"user_name" default:"root"`
+		Password string `short:"p" long:"password" unquote:"false" description:"MySQL user password, overridden by $MYSQL_PWD" value-name:"password"`
+		Host     string `short:"h" long:"host" unquote:"false" description:"Host to connect to the MySQL server" value-name:"host_name" default:"127.0.0.1"`
 		Port     uint   `short:"P" long:"port" description:"Port used for the connection" value-name:"port_num" default:"3306"`
-		Socket   string `short:"S" long:"socket" description:"The socket file to use for connection" value-name:"socket"`
+		Socket   string `short:"S" long:"socket" unquote:"false" description:"The socket file to use for connection" value-name:"socket"`
 		Prompt   bool   `long:"password-prompt" description:"Force MySQL user password prompt"`
-		File     string `long:"file" description:"Read schema SQL from the file, rather than stdin" value-name:"sql_file" default:"-"`
+		File     string `long:"file" unquote:"false" description:"Read schema SQL from the file, rather than stdin" value-name:"sql_file" default:"-"`
 		DryRun   bool   `long:"dry-run" description:"Don't run DDLs but just show them"`
 		Export   bool   `long:"export" description:"Just dump the current schema to stdout"`
 		SkipDrop bool   `long:"skip-drop" description:"Skip destructive changes such as DROP"`
diff --git a/cmd/psqldef/psqldef.go b/cmd/psqldef/psqldef.go
index b45722a..9e2e5dd 100644
--- a/cmd/psqldef/psqldef.go
+++ b/cmd/psqldef/psqldef.go
@@ -21,12 +21,12 @@ var version string
 // TODO: Support `sqldef schema.sql -opt val...`
 func parseOptions(args []string) (adapter.Config, *sqldef.Options) {
 	var opts struct {
-		User     string `short:"U" long:"user" description:"PostgreSQL user name" value-name:"username" default:"postgres"`
-		Password string `short:"W" long:"password" description:"PostgreSQL user password, overridden by $PGPASSWORD" value-name:"password"`
-		Host     string `short:"h" long:"host" description:"Host or socket directory to connect to the PostgreSQL server" value-name:"hostname" default:"127.0.0.1"`
+		User     string `short:"U" long:"user" unquote:"false" description:"PostgreSQL user name" value-name:"username" default:"postgres"`
+		Password string `short:"W" long:"password" unquote:"false" description:"PostgreSQL user password, overridden by $PGPASSWORD" value-name:"password"`
+		Host     string `short:"h" long:"host" unquote:"false" description:"Host or socket directory to connect to the PostgreSQL server" value-name:"hostname" default:"127.0.0.1"`
 		Port     uint   `short:"p" long:"port" description:"Port used for the connection" value-name:"port" default:"5432"`
 		Prompt   bool   `long:"password-prompt" description:"Force PostgreSQL user password prompt"`
-		File     string `short:"f" long:"file" description:"Read schema SQL from the file, rather than stdin" value-name:"filename" default:"-"`
+		File     string `short:"f" long:"file" unquote:"false" description:"Read schema SQL from the file, rather than stdin" value-name:"filename" default:"-"`
 		DryRun   bool   `long:"dry-run" description:"Don't run DDLs but just show them"`
 		Export   bool   `long:"export" description:"Just dump the current schema to stdout"`
 		SkipDrop bool   `long:"skip-drop" description:"Skip destructive changes such as DROP"`
diff --git a/cmd/sqlite3def/sqlite3def.go b/cmd/sqlite3def/sqlite3def.go
index ab253fc..5eda0a0 100644
--- a/cmd/sqlite3def/sqlite3def.go
+++ b/cmd/sqlite3def/sqlite3def.go
@@ -18,7 +18,7 @@ var version string
 // TODO: Support `sqldef schema.sql -opt val...`
 func parseOptions(args []string) (adapter.Config, *sqldef.Options) {
 	var opts struct {
-		File     string `short:"f" long:"file" description:"Read schema SQL from the file, rather than stdin" value-name:"filename" default:"-"`
+		File     string `short:"f" long:"file" unquote:"false" description:"Read schema SQL from the file, rather than stdin" value-name:"filename" default:"-"`
 		DryRun   bool   `long:"dry-run" description:"Don't run DDLs but just show them"`
 		Export   bool   `long:"export" description:"Just dump the current schema to stdout"`
 		SkipDrop bool   `long:"skip-drop" description:"Skip destructive changes such as DROP"`
-- 
2.43.0


From f948d00262342468a41038feb6ca9aa31bcb7751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:44 +0000
Subject: [PATCH 72/86] fix: fail when the output cannot be written

---
 sqldef.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/sqldef.go b/sqldef.go
index 4029704..6cf2d23 100644
--- a/sqldef.go
+++ b/sqldef.go
@@ -26,9 +26,9 @@ func Run(generatorMode schema.GeneratorMode, db adapter.Database, options *Optio
 
 	if options.Export {
 		if currentDDLs == "" {
-			fmt.Printf("-- No table exists --\n")
+			printOut("-- No table exists --\n")
 		} else {
-			fmt.Printf("%s;\n", currentDDLs)
+			printOut("%s;\n", currentDDLs)
 		}
 		return
 	}
@@ -45,7 +45,7 @@ func Run(generatorMode schema.GeneratorMode, db adapter.Database, options *Optio
 		os.Exit(1)
 	}
 	if len(ddls) == 0 {
-		fmt.Println("-- Nothing is modified --")
+		printOut("-- Nothing is modified --\n")
 		return
 	}
 
@@ -82,12 +82,19 @@ func readFile(filepath string) (string, error) {
 }
 
 func showDDLs(ddls []string, skipDrop bool) {
-	fmt.Println("-- dry run --")
+	printOut("-- dry run --\n")
 	for _, ddl := range ddls {
 		if skipDrop && adapter.IsDropDDL(ddl) {
-			fmt.Printf("-- Skipped: %s;\n", ddl)
+			printOut("-- Skipped: %s;\n", ddl)
 			continue
 		}
-		fmt.Printf("%s;\n", ddl)
+		printOut("%s;\n", ddl)
+	}
+}
+
+// printOut prints to stdout, and fails if what was asked for cannot be printed.
+func printOut(format string, args ...interface{}) {
+	if _, err := fmt.Printf(format, args...); err != nil {
+		log.Fatalf("Failed to write the output: %s", err)
 	}
 }
-- 
2.43.0


From 689c1af144e5ad10f2e0546f1746b005d0deb098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:35 +0000
Subject: [PATCH 73/86] fix: keep literals with lines that start with --

---
 schema/parser.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/schema/parser.go b/schema/parser.go
index 42705ed..ded323b 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -4,7 +4,6 @@ package schema
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 
@@ -429,9 +428,6 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 // Parse `ddls`, which is expected to `;`-concatenated DDLs
 // and not to include destructive DDL.
 func parseDDLs(mode GeneratorMode, str string) ([]DDL, error) {
-	re := regexp.MustCompilePOSIX("^--.*")
-	str = re.ReplaceAllString(str, "")
-
 	result := []DDL{}
 
 	for _, ddl := range splitDDLs(mode, str) {
@@ -444,15 +440,17 @@ func parseDDLs(mode GeneratorMode, str string) ([]DDL, error) {
 	return result, nil
 }
 
-// Split `str` by `;` except for the ones in quotes or comments, and omit blank DDLs.
+// Split `str` by `;` except for the ones in quotes or comments, and omit blank DDLs and lines starting with `--`.
 func splitDDLs(mode GeneratorMode, str string) []string {
 	ddls := []string{}
+	ddl := "" // what precedes `start`
 	start := 0
 	blank := true // true while there's only spaces and comments
 	flush := func(end int) {
 		if !blank {
-			ddls = append(ddls, strings.TrimSpace(str[start:end]))
+			ddls = append(ddls, strings.TrimSpace(ddl+str[start:end]))
 		}
+		ddl = ""
 		start = end + 1
 		blank = true
 	}
@@ -474,6 +472,13 @@ func splitDDLs(mode GeneratorMode, str string) []string {
 			flush(i)
 		case ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n':
 			// noop
+		case strings.HasPrefix(str[i:], "--") && (i == 0 || str[i-1] == '\n'):
+			ddl += str[start:i]
+			i = skipTo(i, "\n")
+			start = i
+			if str[i] != '\n' {
+				start++
+			}
 		case ch == '#' || strings.HasPrefix(str[i:], "--") || strings.HasPrefix(str[i:], "//"):
 			i = skipTo(i, "\n")
 		case strings.HasPrefix(str[i:], "/*"):
-- 
2.43.0


From 34da5b2c17b664d897114b15472abf1863ce0837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:56 +0000
Subject: [PATCH 74/86] fix: put MySQL columns in the wanted order when some
 are added, moved or dropped together

---
 schema/generator.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index a2c57cc..999a6c6 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -260,8 +260,19 @@ func (g *Generator) generateDDLsForAbsentColumn(currentTable *Table, columnName
 func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired CreateTable) ([]string, error) {
 	ddls := []string{}
 
+	// The order of columns while they are added and moved. Those to be dropped do not matter.
+	columnOrder := []string{}
+	for _, currentColumn := range currentTable.columns {
+		if findColumnByName(desired.table.columns, currentColumn.name) != nil {
+			columnOrder = append(columnOrder, currentColumn.name)
+		}
+	}
+
 	// Examine each column
 	for i, desiredColumn := range desired.table.columns {
+		changeOrder := i < len(columnOrder) && columnOrder[i] != desiredColumn.name
+		columnOrder = moveString(columnOrder, desiredColumn.name, i)
+
 		currentColumn := findColumnByName(currentTable.columns, desiredColumn.name)
 		if currentColumn == nil || !currentColumn.autoIncrement {
 			// We may not be able to add AUTO_INCREMENT yet. It will be added after adding keys (primary or not) at the "Add new AUTO_INCREMENT" place.
@@ -295,10 +306,6 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 			// Change column data type or order as needed.
 			switch g.mode {
 			case GeneratorModeMysql:
-				currentPos := currentColumn.position
-				desiredPos := desiredColumn.position
-				changeOrder := currentPos > desiredPos && currentPos-desiredPos > len(currentTable.columns)-len(desired.table.columns)
-
 				// Change column type and orders, *except* AUTO_INCREMENT and UNIQUE KEY.
 				sameColumn := desiredColumn
 				if isPrimaryKey(desiredColumn, desired.table) { // `PRIMARY KEY` implies `NOT NULL`
@@ -1694,6 +1701,23 @@ func containsString(strs []string, str string) bool {
 	return false
 }
 
+// Move a string to the index. If it is not in the slice yet, insert it there.
+func moveString(strs []string, str string, index int) []string {
+	ret := []string{}
+	for _, s := range strs {
+		if len(ret) == index {
+			ret = append(ret, str)
+		}
+		if s != str {
+			ret = append(ret, s)
+		}
+	}
+	if len(ret) <= index {
+		ret = append(ret, str)
+	}
+	return ret
+}
+
 func removeTableByName(tables []*Table, name string) ([]*Table, error) {
 	removed := false
 	ret := []*Table{}
-- 
2.43.0


From ec8bb7b65fd5a877ea6c7c838a03790f80961437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:09 +0000
Subject: [PATCH 75/86] fix: compare fractional default values without their
 trailing zeros

---
 schema/generator.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 999a6c6..c1f7656 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -311,7 +311,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				if isPrimaryKey(desiredColumn, desired.table) { // `PRIMARY KEY` implies `NOT NULL`
 					sameColumn.keyOption = ColumnKeyPrimary
 				}
-				if !g.haveSameColumnDefinition(*currentColumn, sameColumn) || !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef) || changeOrder {
+				if !g.haveSameColumnDefinition(*currentColumn, sameColumn) || !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef, desiredColumn.typeName) || changeOrder {
 					definition, err := g.generateColumnDefinition(desiredColumn, false)
 					if err != nil {
 						return ddls, err
@@ -371,7 +371,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				}
 
 				// default
-				if !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef) {
+				if !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef, desiredColumn.typeName) {
 					if desiredColumn.defaultDef == nil {
 						// drop
 						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP DEFAULT", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name)))
@@ -439,7 +439,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				}
 
 				// DEFAULT
-				if !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef) {
+				if !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef, desiredColumn.typeName) {
 					if currentColumn.defaultDef != nil {
 						// drop
 						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.defaultDef.constraintName)))
@@ -1416,7 +1416,7 @@ func areSameIdentityDefinition(identityA *Identity, identityB *Identity) bool {
 	return identityA.behavior == identityB.behavior && identityA.notForReplication == identityB.notForReplication
 }
 
-func areSameDefaultValue(currentDefault *DefaultDefinition, desiredDefault *DefaultDefinition) bool {
+func areSameDefaultValue(currentDefault *DefaultDefinition, desiredDefault *DefaultDefinition, typeName string) bool {
 	var current *Value
 	var desired *Value
 	if currentDefault != nil && !isNullValue(currentDefault.value) {
@@ -1426,9 +1426,32 @@ func areSameDefaultValue(currentDefault *DefaultDefinition, desiredDefault *Defa
 		desired = desiredDefault.value
 	}
 
+	if current != nil && desired != nil && isFractionalType(typeName) {
+		return normalizeFraction(string(current.raw)) == normalizeFraction(string(desired.raw))
+	}
 	return areSameValue(current, desired)
 }
 
+func isFractionalType(typeName string) bool {
+	switch typeName {
+	case "decimal", "numeric", "float", "double", "double precision", "real":
+		return true
+	default:
+		return false
+	}
+}
+
+// MySQL shows a default value with as many digits as the data type has, so `1.5` and `1.50` are the same.
+func normalizeFraction(number string) string {
+	if !strings.Contains(number, ".") {
+		return number
+	}
+	if strings.HasPrefix(number, ".") {
+		number = "0" + number
+	}
+	return strings.TrimSuffix(strings.TrimRight(number, "0"), ".")
+}
+
 func areSameValue(current, desired *Value) bool {
 	if current == nil && desired == nil {
 		return true
-- 
2.43.0


From a6763eb68bc1d149dfbc3d58248795246d45c031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:12 +0000
Subject: [PATCH 76/86] fix: compare boolean default values as MySQL shows them

---
 schema/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/schema/parser.go b/schema/parser.go
index ded323b..d89ef30 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -556,6 +556,13 @@ func parseDefaultDefinition(mode GeneratorMode, opt *sqlparser.DefaultDefinition
 	if mode == GeneratorModeMysql && defaultVal.valueType == ValueTypeValArg && string(defaultVal.raw) == "now()" {
 		defaultVal.raw = []byte("current_timestamp") // NOW() is reported as CURRENT_TIMESTAMP
 	}
+	if mode == GeneratorModeMysql && defaultVal.valueType == ValueTypeBool { // TRUE and FALSE are reported as 1 and 0
+		if string(defaultVal.raw) == "true" {
+			defaultVal = &Value{valueType: ValueTypeInt, raw: []byte("1"), intVal: 1}
+		} else {
+			defaultVal = &Value{valueType: ValueTypeInt, raw: []byte("0"), intVal: 0}
+		}
+	}
 	if mode == GeneratorModeMssql && defaultVal.valueType == ValueTypeValArg {
 		switch string(defaultVal.raw) {
 		case "getdate", "current_timestamp": // CURRENT_TIMESTAMP is reported as getdate()
-- 
2.43.0


From c2c4f7d273839f32363bc52478b43a7b000fe68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:13 +0000
Subject: [PATCH 77/86] fix: keep the index of a foreign key that has an index
 name of its own

---
 schema/generator.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index c1f7656..4630227 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1690,10 +1690,11 @@ func convertForeignKeysToConstraintNames(foreignKeys []ForeignKey) []string {
 func convertForeignKeysToIndexNames(foreignKeys []ForeignKey) []string {
 	indexNames := []string{}
 	for _, foreignKey := range foreignKeys {
-		if len(foreignKey.indexName) > 0 {
-			indexNames = append(indexNames, foreignKey.indexName)
-		} else if len(foreignKey.constraintName) > 0 {
+		// MySQL names the index after the constraint, or after the index name if the constraint has no name.
+		if len(foreignKey.constraintName) > 0 {
 			indexNames = append(indexNames, foreignKey.constraintName)
+		} else if len(foreignKey.indexName) > 0 {
+			indexNames = append(indexNames, foreignKey.indexName)
 		} // unexpected to reach else (really?)
 	}
 	return indexNames
-- 
2.43.0


From 900b7fe7279bce2597d90ab2e0b283ce5d9fd3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:50 +0000
Subject: [PATCH 78/86] fix: drop obsolete policies before the columns they use

---
 schema/generator.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 4630227..ded0bb4 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -199,6 +199,14 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 			// TODO: simulate to remove index from `currentTable.indexes`?
 		}
 
+		// Check policies. Drop them prior to the columns they depend on
+		for _, policy := range currentTable.policies {
+			if containsString(convertPolicyNames(desiredTable.policies), policy.name) {
+				continue
+			}
+			ddls = append(ddls, fmt.Sprintf("DROP POLICY %s ON %s", g.escapeSQLName(policy.name), g.escapeTableName(currentTable.name)))
+		}
+
 		// Check columns.
 		for _, column := range currentTable.columns {
 			if containsString(convertColumnsToColumnNames(desiredTable.columns), column.name) {
@@ -210,14 +218,6 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 			ddls = append(ddls, columnDDLs...)
 			// TODO: simulate to remove column from `currentTable.columns`?
 		}
-
-		// Check policies.
-		for _, policy := range currentTable.policies {
-			if containsString(convertPolicyNames(desiredTable.policies), policy.name) {
-				continue
-			}
-			ddls = append(ddls, fmt.Sprintf("DROP POLICY %s ON %s", g.escapeSQLName(policy.name), g.escapeTableName(currentTable.name)))
-		}
 	}
 
 	// Clean up obsoleted views
-- 
2.43.0


From d6c6a1861f50caf65f5de5103db938497adb4315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:46 +0000
Subject: [PATCH 79/86] fix: An unnamed primary key of SQL Server is clustered
 too

---
 sqlparser/parser.go | 2 +-
 sqlparser/parser.y  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index 7c0b0d9..720264c 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -5153,7 +5153,7 @@ yydefault:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:1708
 		{
-			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes), Name: NewColIdent("PRIMARY"), Primary: true, Unique: true}
+			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes), Name: NewColIdent("PRIMARY"), Primary: true, Unique: true, Clustered: true}
 		}
 	case 293:
 		yyDollar = yyS[yypt-3 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index 4359628..252c971 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1710,7 +1710,7 @@ index_partition_opt:
 index_info:
   PRIMARY KEY
   {
-    $$ = &IndexInfo{Type: string($1) + " " + string($2), Name: NewColIdent("PRIMARY"), Primary: true, Unique: true}
+    $$ = &IndexInfo{Type: string($1) + " " + string($2), Name: NewColIdent("PRIMARY"), Primary: true, Unique: true, Clustered: true}
   }
 | SPATIAL index_or_key ID
   {
-- 
2.43.0


From 6a605b67ad6e8493b53396b834f273cc307b9c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:17 +0000
Subject: [PATCH 80/86] fix: A backslash in a string is an escape character
 only in MySQL

---
 sqlparser/token.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sqlparser/token.go b/sqlparser/token.go
index bedac1d..9832d3d 100644
--- a/sqlparser/token.go
+++ b/sqlparser/token.go
@@ -853,6 +853,10 @@ exit:
 
 func (tkn *Tokenizer) scanString(delim uint16, typ int) (int, []byte) {
 	var buffer bytes2.Buffer
+	escape := delim // Only MySQL escapes characters with a backslash.
+	if tkn.mode == ParserModeMysql {
+		escape = '\\'
+	}
 	for {
 		ch := tkn.lastChar
 		if ch == eofChar {
@@ -860,14 +864,14 @@ func (tkn *Tokenizer) scanString(delim uint16, typ int) (int, []byte) {
 			return LEX_ERROR, buffer.Bytes()
 		}
 
-		if ch != delim && ch != '\\' {
+		if ch != delim && ch != escape {
 			buffer.WriteByte(byte(ch))
 
 			// Scan ahead to the next interesting character.
 			start := tkn.bufPos
 			for ; tkn.bufPos < tkn.bufSize; tkn.bufPos++ {
 				ch = uint16(tkn.buf[tkn.bufPos])
-				if ch == delim || ch == '\\' {
+				if ch == delim || ch == escape {
 					break
 				}
 			}
@@ -887,7 +891,7 @@ func (tkn *Tokenizer) scanString(delim uint16, typ int) (int, []byte) {
 		}
 		tkn.next() // Read one past the delim or escape character.
 
-		if ch == '\\' {
+		if ch == escape && ch != delim {
 			if tkn.lastChar == eofChar {
 				// String terminates mid escape character.
 				return LEX_ERROR, buffer.Bytes()
-- 
2.43.0


From 00342c96e947c64b54c8b7120d931b877696d4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:36 +0000
Subject: [PATCH 81/86] fix: --skip-drop skipped what mentions DROP in a #
 comment

---
 adapter/database.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/adapter/database.go b/adapter/database.go
index ba8f215..1926fbb 100644
--- a/adapter/database.go
+++ b/adapter/database.go
@@ -58,13 +58,19 @@ func DumpDDLs(d Database) (string, error) {
 	return strings.Join(ddls, ";\n\n"), nil
 }
 
-// Literals, quoted names and comments
-var quotedText = regexp.MustCompile("(?s)'(?:[^'\\\\]|\\\\.)*'|\"[^\"]*\"|`[^`]*`|\\[[^]]*\\]|--[^\n]*|/\\*.*?\\*/")
+// Literals, quoted names and comments, where only MySQL has backslash escapes
+var quotedText = regexp.MustCompile("(?s)'[^']*'|\"[^\"]*\"|`[^`]*`|\\[[^]]*\\]|(?:--|#)[^\n]*|/\\*.*?\\*/")
+var quotedTextMysql = regexp.MustCompile("(?s)'(?:[^'\\\\]|\\\\.)*'|\"[^\"]*\"|`[^`]*`|\\[[^]]*\\]|(?:--|#)[^\n]*|/\\*.*?\\*/")
 var dropKeyword = regexp.MustCompile(`\bDROP\b`)
 
 // Whether a DDL is to be skipped by --skip-drop
 func IsDropDDL(ddl string) bool {
-	return dropKeyword.MatchString(quotedText.ReplaceAllString(ddl, " "))
+	for _, quoted := range []*regexp.Regexp{quotedText, quotedTextMysql} {
+		if !dropKeyword.MatchString(quoted.ReplaceAllString(ddl, " ")) {
+			return false
+		}
+	}
+	return true
 }
 
 func RunDDLs(d Database, ddls []string, skipDrop bool) error {
-- 
2.43.0


From 7e9596e45ae0b3a85797bfcd5e449d315e55dae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:52 +0000
Subject: [PATCH 82/86] fix: A unique index of several columns is dropped even
 if its first column is UNIQUE

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index ded0bb4..4d97125 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -810,7 +810,7 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 	} else if currentIndex.unique {
 		var uniqueKeyColumn *Column
 		for _, column := range desiredTable.columns {
-			if column.name == currentIndex.columns[0].column && column.keyOption.isUnique() {
+			if len(currentIndex.columns) == 1 && column.name == currentIndex.columns[0].column && column.keyOption.isUnique() {
 				uniqueKeyColumn = &column
 				break
 			}
-- 
2.43.0


From aca28085ed711114e6245f6dfc4a0ca7b2c51b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:51 +0000
Subject: [PATCH 83/86] fix: Notice changes of a scale, of a length that is
 left out and of WITH TIME ZONE

---
 schema/generator.go | 53 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 4d97125..2066804 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -829,8 +829,11 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 
 func generateDataType(column Column) string {
 	suffix := ""
+	if column.timezone {
+		suffix += " WITH TIME ZONE"
+	}
 	if column.array {
-		suffix = "[]"
+		suffix += "[]"
 	}
 
 	if column.length != nil {
@@ -857,9 +860,6 @@ func (g *Generator) generateColumnDefinition(column Column, enableUnique bool) (
 	if column.unsigned {
 		definition += "UNSIGNED "
 	}
-	if column.timezone {
-		definition += "WITH TIME ZONE "
-	}
 
 	// [CHARACTER SET] and [COLLATE] should be placed before [NOT NULL | NULL] on MySQL
 	if column.charset != "" {
@@ -1391,9 +1391,50 @@ func (g *Generator) haveSameColumnDefinition(current Column, desired Column) boo
 func (g *Generator) haveSameDataType(current Column, desired Column) bool {
 	return g.normalizeDataType(current.typeName) == g.normalizeDataType(desired.typeName) &&
 		reflect.DeepEqual(current.enumValues, desired.enumValues) &&
-		(current.length == nil || desired.length == nil || current.length.intVal == desired.length.intVal) && // detect change column only when both are set explicitly. TODO: maybe `current.length == nil` case needs another care
+		g.haveSameLength(current, desired) &&
+		(g.mode != GeneratorModePostgres || current.timezone == desired.timezone) &&
 		current.array == desired.array
-	// TODO: scale
+}
+
+func (g *Generator) haveSameLength(current Column, desired Column) bool {
+	if current.length == nil && desired.length == nil {
+		return true
+	}
+	if current.length != nil && desired.length != nil {
+		return current.length.intVal == desired.length.intVal && scaleOf(current) == scaleOf(desired)
+	}
+
+	// One of them is left out, so compare the other with the length the data type has by default.
+	column := current
+	if column.length == nil {
+		column = desired
+	}
+	switch g.mode {
+	case GeneratorModeMysql:
+		switch g.normalizeDataType(column.typeName) {
+		case "datetime", "timestamp", "time":
+			return column.length.intVal == 0
+		case "bit", "character", "binary":
+			return column.length.intVal == 1
+		case "decimal":
+			return column.length.intVal == 10 && scaleOf(column) == 0
+		}
+	case GeneratorModePostgres:
+		switch g.normalizeDataType(column.typeName) {
+		case "character varying", "numeric": // unlimited
+			return false
+		case "character":
+			return column.length.intVal == 1
+		}
+	}
+	return true // the length of other data types is not known, such as the display width of integers
+}
+
+func scaleOf(column Column) int {
+	if column.scale == nil {
+		return 0
+	}
+	return column.scale.intVal
 }
 
 func areSameCheckDefinition(checkA *CheckDefinition, checkB *CheckDefinition) bool {
-- 
2.43.0


From a336984192db7dd925f305f8c58028435387e7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:58 +0000
Subject: [PATCH 84/86] fix: RESTRICT and NO ACTION are the default of foreign
 keys in MySQL

---
 schema/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 2066804..80f0b35 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1681,6 +1681,8 @@ func normalizePolicyOption(option string, defaultOption string) string {
 func (g *Generator) normalizeOnUpdate(onUpdate string) string {
 	if (g.mode == GeneratorModePostgres || g.mode == GeneratorModeMssql) && onUpdate == "" {
 		return "NO ACTION"
+	} else if g.mode == GeneratorModeMysql && (onUpdate == "RESTRICT" || onUpdate == "NO ACTION") {
+		return "" // they are the same in MySQL, which does not show its default
 	} else {
 		return onUpdate
 	}
@@ -1689,6 +1691,8 @@ func (g *Generator) normalizeOnUpdate(onUpdate string) string {
 func (g *Generator) normalizeOnDelete(onDelete string) string {
 	if (g.mode == GeneratorModePostgres || g.mode == GeneratorModeMssql) && onDelete == "" {
 		return "NO ACTION"
+	} else if g.mode == GeneratorModeMysql && (onDelete == "RESTRICT" || onDelete == "NO ACTION") {
+		return "" // they are the same in MySQL, which does not show its default
 	} else {
 		return onDelete
 	}
-- 
2.43.0


From 1170e019ceea842499ed742090a00bc79bf2d478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:42 +0000
Subject: [PATCH 85/86] fix: keep REFERENCES of added columns, tell foreign
 keys of columns apart

---
 schema/ast.go       |  1 +
 schema/generator.go | 18 +++++++++++++++++-
 schema/parser.go    |  9 +++++++++
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/schema/ast.go b/schema/ast.go
index 0529ecf..9394a84 100644
--- a/schema/ast.go
+++ b/schema/ast.go
@@ -68,6 +68,7 @@ type Column struct {
 	onUpdate       *Value
 	enumValues     []string
 	references     string
+	refColumns     []string
 	identity       *Identity
 	sequence       *Sequence
 	// TODO: keyopt
diff --git a/schema/generator.go b/schema/generator.go
index 80f0b35..4723540 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -762,9 +762,14 @@ func (g *Generator) generateDDLsForAbsentForeignKey(currentForeignKey ForeignKey
 	case GeneratorModeMysql:
 		ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP FOREIGN KEY %s", g.escapeTableName(currentTable.name), g.escapeSQLName(currentForeignKey.constraintName)))
 	case GeneratorModePostgres, GeneratorModeMssql:
+		defaultSchema := "public."
+		if g.mode == GeneratorModeMssql {
+			defaultSchema = "dbo."
+		}
 		var referencesColumn *Column
 		for _, column := range desiredTable.columns {
-			if column.references != "" && column.references == strings.TrimPrefix(currentForeignKey.referenceName, "public.") {
+			if column.references != "" && column.references == strings.TrimPrefix(currentForeignKey.referenceName, defaultSchema) &&
+				len(currentForeignKey.indexColumns) == 1 && currentForeignKey.indexColumns[0] == column.name {
 				referencesColumn = &column
 				break
 			}
@@ -908,6 +913,17 @@ func (g *Generator) generateColumnDefinition(column Column, enableUnique bool) (
 		definition += "NO INHERIT "
 	}
 
+	if column.references != "" && g.mode != GeneratorModeMysql { // MySQL ignores it
+		definition += fmt.Sprintf("REFERENCES %s ", g.escapeSQLName(column.references))
+		if len(column.refColumns) > 0 {
+			names := []string{}
+			for _, name := range column.refColumns {
+				names = append(names, g.escapeSQLName(name))
+			}
+			definition += fmt.Sprintf("(%s) ", strings.Join(names, ", "))
+		}
+	}
+
 	switch column.keyOption {
 	case ColumnKeyNone:
 		// noop
diff --git a/schema/parser.go b/schema/parser.go
index d89ef30..2198b0e 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -16,6 +16,14 @@ func castBool(val sqlparser.BoolVal) bool {
 	return ret
 }
 
+func columnNames(columns sqlparser.Columns) []string {
+	names := []string{}
+	for _, column := range columns {
+		names = append(names, column.String())
+	}
+	return names
+}
+
 func castBoolPtr(val *sqlparser.BoolVal) *bool {
 	if val == nil {
 		return nil
@@ -122,6 +130,7 @@ func parseTable(mode GeneratorMode, parserMode sqlparser.ParserMode, stmt *sqlpa
 			onUpdate:      parseValue(parsedCol.Type.OnUpdate),
 			enumValues:    parsedCol.Type.EnumValues,
 			references:    parsedCol.Type.References,
+			refColumns:    columnNames(parsedCol.Type.ReferenceNames),
 			identity:      parseIdentity(parsedCol.Type.Identity),
 			sequence:      parseIdentitySequence(parsedCol.Type.Identity),
 		}
-- 
2.43.0


From 185f1c54eec139ceaf0d6bcb846a1400492ba12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:52 +0000
Subject: [PATCH 86/86] fix: notice changes of letter case in strings of
 policies and views

---
 schema/generator.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 4723540..814cd1d 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -685,7 +685,7 @@ func (g *Generator) generateDDLsForCreateView(viewName string, desiredView *View
 		ddls = append(ddls, desiredView.statement)
 	} else {
 		// View found. If it's different, create or replace view.
-		if strings.ToLower(currentView.definition) != strings.ToLower(desiredView.definition) {
+		if lowerExceptStrings(currentView.definition) != lowerExceptStrings(desiredView.definition) {
 			if g.mode == GeneratorModeSQLite3 || g.mode == GeneratorModeMssql {
 				ddls = append(ddls, fmt.Sprintf("DROP VIEW %s", g.escapeTableName(viewName)))
 				ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", g.escapeTableName(viewName), desiredView.definition))
@@ -1664,10 +1664,10 @@ func areSamePolicies(policyA, policyB Policy) bool {
 	if normalizePolicyOption(policyA.permissive, "permissive") != normalizePolicyOption(policyB.permissive, "permissive") {
 		return false
 	}
-	if strings.ToLower(policyA.using) != strings.ToLower(policyB.using) && fmt.Sprintf("(%s)", policyA.using) != policyB.using {
+	if lowerExceptStrings(policyA.using) != lowerExceptStrings(policyB.using) && fmt.Sprintf("(%s)", policyA.using) != policyB.using {
 		return false
 	}
-	if strings.ToLower(policyA.withCheck) != strings.ToLower(policyB.withCheck) && fmt.Sprintf("(%s)", policyA.withCheck) != policyB.withCheck {
+	if lowerExceptStrings(policyA.withCheck) != lowerExceptStrings(policyB.withCheck) && fmt.Sprintf("(%s)", policyA.withCheck) != policyB.withCheck {
 		return false
 	}
 	if len(policyA.roles) != len(policyB.roles) {
@@ -1687,6 +1687,15 @@ func areSamePolicies(policyA, policyB Policy) bool {
 	return true
 }
 
+// lowerExceptStrings converts an SQL expression to lower case, leaving string literals as they are.
+func lowerExceptStrings(expr string) string {
+	parts := strings.Split(expr, "'")
+	for i := 0; i < len(parts); i += 2 {
+		parts[i] = strings.ToLower(parts[i])
+	}
+	return strings.Join(parts, "'")
+}
+
 func normalizePolicyOption(option string, defaultOption string) string {
 	if option == "" {
 		return defaultOption
-- 
2.43.0

