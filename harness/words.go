package main

// sqlWords are words with a meaning in some SQL dialect. As names they need quotes.
var sqlWords = []string{
	"accessible", "action", "add", "after", "against", "all", "alter", "always", "analyze", "and",
	"array", "as", "asc", "asensitive", "auto_increment", "autoincrement", "before", "begin", "between", "bigint",
	"bigserial", "binary", "_binary", "bit", "blob", "bool", "boolean", "both", "bpchar", "by",
	"cache", "call", "cascade", "case", "cast", "change", "char", "character", "charset", "check",
	"citext", "clustered", "nonclustered", "collate", "column", "comment", "committed", "commit", "condition", "constraint",
	"continue", "convert", "substr", "substring", "create", "cross", "current_date", "current_time", "current_timestamp", "current_user",
	"cursor", "cycle", "database", "databases", "day_hour", "day_microsecond", "day_minute", "day_second", "date", "datetime",
	"datetime2", "datetimeoffset", "dec", "decimal", "declare", "default", "delayed", "delete", "desc", "describe",
	"deterministic", "distinct", "distinctrow", "div", "double", "drop", "duplicate", "each", "else", "elseif",
	"enclosed", "end", "enum", "escape", "escaped", "exists", "exit", "explain", "expansion", "extended",
	"false", "fetch", "float", "float4", "float8", "for", "force", "foreign", "from", "full",
	"fulltext", "generated", "geometry", "geometrycollection", "get", "getdate", "global", "grant", "group", "group_concat",
	"having", "high_priority", "hour_microsecond", "hour_minute", "hour_second", "identity", "if", "ignore", "in", "include",
	"increment", "index", "infile", "inout", "inner", "insensitive", "insert", "int", "int1", "int2",
	"int3", "int4", "int8", "integer", "interval", "into", "io_after_gtids", "is", "isolation", "inherit",
	"iterate", "join", "json", "jsonb", "key", "keys", "key_block_size", "kill", "language", "last_insert_id",
	"leading", "leave", "left", "less", "level", "like", "limit", "linear", "lines", "linestring",
	"load", "localtime", "localtimestamp", "lock", "long", "longblob", "longtext", "loop", "low_priority", "master_bind",
	"match", "maxvalue", "mediumblob", "mediumint", "mediumtext", "middleint", "minute_microsecond", "minute_second", "minvalue", "mod",
	"mode", "modifies", "money", "multilinestring", "multipoint", "multipolygon", "names", "natural", "nchar", "next",
	"no", "none", "not", "now", "no_write_to_binlog", "ntext", "null", "numeric", "nvarchar", "offset",
	"on", "only", "optimize", "optimizer_costs", "option", "optionally", "or", "order", "out", "outer",
	"outfile", "owned", "parser", "partition", "permissive", "point", "policy", "polygon", "precision", "primary",
	"processlist", "procedure", "query", "restrictive", "range", "read", "reads", "read_write", "real", "references",
	"regexp", "release", "rename", "reorganize", "repair", "repeat", "repeatable", "replace", "replication", "require",
	"resignal", "restrict", "return", "revoke", "right", "rlike", "rollback", "row", "schema", "schemas",
	"second_microsecond", "select", "sensitive", "separator", "sequence", "serial", "serializable", "session", "set", "share",
	"show", "signal", "signed", "smalldatetime", "smallint", "smallmoney", "smallserial", "spatial", "specific", "sql",
	"sqlexception", "sqlstate", "sqlwarning", "sql_big_result", "sql_cache", "sql_calc_found_rows", "sql_no_cache", "sql_small_result", "ssl", "start",
	"starting", "status", "stored", "straight_join", "stream", "table", "tables", "terminated", "text", "than",
	"then", "time", "timestamp", "tinyblob", "tinyint", "tinytext", "to", "trailing", "transaction", "trigger",
	"true", "truncate", "uncommitted", "undo", "union", "unique", "unlock", "unsigned", "update", "usage",
	"use", "using", "utc_date", "utc_time", "utc_timestamp", "uuid", "values", "variables", "varbinary", "varchar",
	"varcharacter", "varying", "virtual", "vindex", "vindexes", "view", "vitess_keyspaces", "vitess_shards", "vitess_tablets", "vschema_tables",
	"when", "where", "while", "with", "without", "write", "xor", "year", "year_month", "zerofill",
	"zone", "allow_page_locks", "allow_row_locks", "fillfactor", "ignore_dup_key", "off", "pad_index", "statistics_incremental", "statistics_norecompute",
}
