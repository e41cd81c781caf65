prop('N01', 'Numeric arrays and vectors cross the PostgreSQL text format unharmed',
  'For every integer and floating point array or vector column type and every Go slice type it supports, writing produces exactly the PostgreSQL array text of the elements in order (NULL for a nil slice), and reading back any such text produces exactly those elements. A number that does not parse or does not fit the Go element type or the column type makes the read fail, it is never truncated or wrapped, and the destination is left as it was.',
  ['inputs'], 'every slice value of every supported element type (any length, any element), and every array text the server can send, in both []byte and string form',
  'The tests write and read back two or three fixed short slices per type through a live database; they never try long slices, values at the edge of or beyond the element type, or a failed read, and the code is some 150 near-identical hand-written methods in which one wrong width, bound or separator goes unnoticed.',
  ['pgsql/int2arr.go', 'pgsql/int4arr.go', 'pgsql/int8arr.go', 'pgsql/numericarr.go', 'pgsql/int2vector.go', 'pgsql/int2vectorarr.go', 'pgsql/float4arr.go', 'pgsql/float8arr.go', 'pgsql/convert_util.go'],
  [('array text splitter', 'pgsql/convert_util.go:pgParseCommaArray, pgParseVector, pgParseVectorArray'), ('per-type Value and Scan methods', 'pgsql/int2arr.go and its siblings')])

prop("I01", "InValueList yields exactly the consecutive placeholders asked for",
  "For every count num and position pos with 0 <= pos and pos+num <= 65535, InValueList(num, pos) is $pos+1,...,$pos+num joined by single commas, and is empty when num is not positive. OrdinalParameters[i] is the text $i+1 for every index of the table.",
  ["inputs"], "every count and position within the 65535 parameters PostgreSQL allows",
  "The tests call it for a handful of small counts; the pairs run to two thousand million, and a wrong cell of the 65535-entry table or a separator slip at a power of ten shows only at that position.",
  ["gosql.go"], [("placeholder table", "gosql.go:OrdinalParameters"), ("list writer", "gosql.go:InValueList")])

prop("F01", "A filter's SQL text and its parameters always agree",
  "For every filter a Constructor can hold, Filter().ToSQL(pos) writes the conditions in the order they were added, numbers their placeholders consecutively from pos+1, and returns exactly one parameter per placeholder, in placeholder order, carrying the value that condition was given. CountFilter().ToSQL(pos) gives the same condition and parameters without ORDER BY, LIMIT and OFFSET.",
  ["inputs", "histories"], "every sequence of builder calls, every column, operator, value and value list, and every starting position within 65535 parameters",
  "The tests print a dozen fixed filters, mostly from position 0; a placeholder that drifts from its parameter needs a particular mix of conditions (lists, unary predicates, text search) before the one that goes wrong.",
  ["filter/filter.go", "filter/convenience.go", "gosql.go"],
  [("condition nodes", "filter/filter.go:sqlNode.write and its implementations"), ("IN and ANY nodes", "filter/convenience.go"), ("printer", "filter/filter.go:filter.ToSQL, countFilter.ToSQL"), ("placeholder table", "gosql.go:OrdinalParameters")],
  "all inputs, all iterations; the strings package is assumed by contract")

prop("F02", "A filter built with the Constructor's methods is a well-formed condition",
  "Whatever sequence of Col, ColIn*, ColAny*, TextSearch, And and Or calls builds a filter, its WHERE condition is a well-formed boolean expression: operands separated by exactly one AND or OR, AND by default and OR where Or was called, every nested group enclosed in its own parentheses. A call that adds no predicate adds no operator either.",
  ["inputs", "histories"], "every sequence of builder calls, nested to any depth, where each And(nil) or Or(nil) is followed by a predicate and each nested function adds one",
  "The tests run a few fixed call sequences; whether an operator is due depends on what was added before, so a wrong decision shows only after a particular sequence.",
  ["filter/filter.go", "filter/convenience.go"],
  [("operator rule", "filter/filter.go:Constructor.canAndOr and canAndOr of every node"), ("builder methods", "filter/filter.go:Col, TextSearch, And, Or"), ("list predicates", "filter/convenience.go")],
  "all inputs, all call sequences; nested functions are assumed to consist of builder calls")

prop("F03", "FQL and sort input reach SQL only through the vetted column map",
  "UnmarshalFQL and UnmarshalSort translate the whole input, in order, naming only columns of the column map with its converters and nullability applied, so that no text of the input itself reaches the SQL. A key without an entry is skipped, or in strict mode reported as UnknownColumnKeyError with that key, and malformed FQL is reported. Order, limit, offset and page calls set exactly their own clause.",
  ["inputs", "histories"], "every input string, every column map, strict or not, on top of every earlier state of the Constructor",
  "The tests parse a few well-formed strings against one map; injection and mis-association need hostile or odd strings (empty items, stray hyphens, unknown keys between known ones).",
  ["filter/filter.go"],
  [("FQL translation", "filter/filter.go:Constructor.UnmarshalFQL"), ("sort translation", "filter/filter.go:Constructor.UnmarshalSort, OrderByV2"), ("clauses", "filter/filter.go:OrderBy, Limit, Offset, Page")],
  "all inputs, all iterations; the tokenizer of github.com/frk/fql and the converters are assumed by contract")

prop("N02", "Integer and numeric ranges cross the PostgreSQL text format unharmed",
  "For every int4range, int8range and numrange column, single or array, and every Go pair type it supports, writing produces exactly the range text [lower,upper) of the pair (for arrays of every pair, in order, NULL for a nil slice), and reading any range text PostgreSQL sends produces its two bounds in order, a missing bound and an empty or NULL element reading as zero. A bound that does not parse or does not fit the Go type or the column makes the read fail and leaves the destination as it was; NULL leaves a pair alone and makes a slice nil.",
  ["inputs"], "every pair and slice of pairs of every supported type, and every range or range array text the server can send, in both []byte and string form",
  "The tests write and read back one or two fixed ranges per type through a live database; they never try unbounded, empty or NULL elements, fractions, bounds that do not fit, or a failed read, over 144 near-identical methods.",
  ["pgsql/int4range.go", "pgsql/int8range.go", "pgsql/numrange.go", "pgsql/int4rangearr.go", "pgsql/int8rangearr.go", "pgsql/numrangearr.go", "pgsql/convert_util.go"],
  [("range splitter", "pgsql/convert_util.go:pgParseRange"), ("range array splitter", "pgsql/convert_util.go:pgParseQuotedStringArray"), ("per-type Value and Scan methods", "pgsql/int4range.go and its siblings")])

prop("N03", "Booleans and bit strings cross the PostgreSQL text format unharmed",
  "For every bit, bit[], boolean[], varbit and varbit[] column and every Go type it supports, writing produces exactly the PostgreSQL text of the value: one character per bit or boolean, in order, NULL for a nil slice and \"\" for an empty bit string inside an array. Reading any text PostgreSQL sends produces exactly its elements, in order, and bit strings read as numbers that do not fit fail and leave the destination as it was.",
  ["inputs"], "every slice (of slices) of booleans, bits (0 or 1), bit texts or non-negative numbers, and every array or bit string text the server can send, in both []byte and string form",
  "The tests write and read one or two fixed values per type through a live database; the writers size a buffer in one pass and fill it in another, so a slip shows only for particular mixes of empty, nil and longer elements.",
  ["pgsql/bit.go", "pgsql/bitarr.go", "pgsql/boolarr.go", "pgsql/varbit.go", "pgsql/varbitarr.go", "pgsql/convert_util.go"],
  [("array splitter", "pgsql/convert_util.go:pgParseCommaArray"), ("per-type Value and Scan methods", "pgsql/varbitarr.go and its siblings")])

prop("T01", "String arrays cross the PostgreSQL text format unharmed",
  "For every text, varchar, json, xml and tsquery array column, writing a slice produces exactly the array text of its elements in order, each quoted with its quotes, backslashes and control characters escaped (a nil []byte as NULL, a nil slice as NULL). Reading any array text PostgreSQL sends produces exactly its elements, unescaped, in order, with NULL read as a nil []byte or an empty string, and NULL itself as a nil slice.",
  ["inputs"], "every slice of strings or byte slices of any content, and every array text with closed quotes, in both []byte and string form",
  "The tests write and read a couple of fixed words per type; quoting and unescaping go wrong only for particular characters, in particular places (a quote after an escape, an element that starts like NULL).",
  ["pgsql/textarr.go", "pgsql/varchararr.go", "pgsql/jsonarr.go", "pgsql/xmlarr.go", "pgsql/tsqueryarr.go", "pgsql/convert_util.go"],
  [("array text parser", "pgsql/convert_util.go:pgParseStringArray"), ("element quoting", "pgsql/convert_util.go:pgAppendQuote1"), ("per-type Value and Scan methods", "pgsql/textarr.go and its siblings")])

GEN = ['internal/generator/generator.go']
GNOTE = 'all inputs for the functions under contract, which build the syntax trees of the SQL; the functions that assemble the generated method body, and the printing by github.com/frk/ast, are covered by a bounded search only (random targets, the generated code interpreted)'

prop('G01', 'Each placeholder of the generated SQL gets the argument meant for it',
  'In every query method gosql generates, the placeholders of the SQL text and the arguments passed with it agree in number, each placeholder stands for the argument at its position, and every field, condition bound, key, limit and offset reaches the place in the SQL it was declared for. The same holds per row for slices and for list conditions whose length is known only at run time.',
  ['inputs'], 'every analysed query type: any mix of columns, directives, conditions nested to any depth, lists, slices, keys, limit and offset',
  'The generator tests compare some hundred fixed structs with golden text and need a live database; SQL and arguments are produced by separate passes over the struct, and whether they agree depends on the mix of conditions, defaults, keys and lists in it.',
  GEN, [('placeholder numbering', 'internal/generator/generator.go:makeParamSpec'), ('written values', 'internal/generator/generator.go:buildQueryInputTargetValues'), ('conditions', 'internal/generator/generator.go:makeSQLBoolValueExprList'), ('arguments', 'internal/generator/generator.go:buildQueryInputWhereConditional and its siblings'), ('slice queries', 'internal/generator/generator.go:buildQueryStringForSliceInsertOrUpdate')],
  GNOTE)

prop('G02', 'Generated queries scan each returned column into its own field',
  'In every query method gosql generates, the columns of the SELECT or RETURNING list are exactly the fields to be read, in the order in which they are scanned, so each column lands in its own field of the right row, through the declared converter. Every pointer on the way to a scanned field is initialised first, every row is delivered once, and an error of the query, a row or the iteration is returned.',
  ['inputs'], 'every analysed query type: any mix of returned columns, nested and pointer fields, single, slice, array and iterator targets',
  'The generator tests compare some hundred fixed structs with golden text and need a live database; a column list and a scan list that drift apart, or a pointer left nil, show only for particular nestings of fields and particular kinds of target.',
  GEN, [('returned columns', 'internal/generator/generator.go:buildQueryOutputSourceColumns'), ('scanned fields', 'internal/generator/generator.go:buildQueryOutputTargetFields'), ('field initialisation', 'internal/generator/generator.go:buildQueryOutputInitFields'), ('row loops', 'internal/generator/generator.go:buildQueryResultRowsScan')],
  GNOTE)

prop('G03', 'Generated SQL states exactly the clauses the query type declares',
  'The SQL of every generated query method names the declared relation, joins, conditions (with their operators, quantifiers, functions, AND/OR and nesting), conflict action, order, limit and offset, each once and in the order SQL requires. No condition is dropped, weakened or attached to another column.',
  ['inputs'], 'every analysed query type: every predicate, quantifier, bound kind, conditions nested to any depth, every join and conflict directive',
  'The generator tests compare some hundred fixed structs with golden text and need a live database; each predicate and clause is a separate branch, many combinations of which no test struct has.',
  GEN, [('conditions', 'internal/generator/generator.go:makeSQLBoolValueExprList, makeSQLBetweenPredicate'), ('clauses', 'internal/generator/generator.go:buildSQLWhereClause, buildSQLLimitClause, buildSQLOrderClause, buildSQLOnConflictClause, buildSQLTableJoinSlice'), ('statements', 'internal/generator/generator.go:buildSQLInsertStatement and its siblings')],
  GNOTE)

prop('G04', 'A generated filter maps each key and method to its own column',
  'For every filter type, the generated column map has exactly the keys of its fields, the first field of a key giving the column, its converter and its nullability. Every field whose name is not reserved gets one method, named by its path, which passes its own column, the operator and the value to the constructor and takes a value of the type of the field; And, Or and Init reach the constructor with the nested filter, the map and the text search column. Each column is written qualified and quoted as configured, and the file imports exactly the packages it uses.',
  ['inputs'], 'every list of fields, nesting, filter key, field type, converter and quoting setting, several filters in one file',
  'The generator tests compare eight fixed filters with golden text; shared keys, packages of the same name, local types and converters in other packages meet in none of them.',
  GEN, [('column map', 'internal/generator/generator.go:buildFilterColumnMap'), ('methods', 'internal/generator/generator.go:buildFilterMethodsForColumns, buildFilterMethodBoolOp, buildFilterMethodInit'), ('imports', 'internal/generator/generator.go:addimport, importType'), ('column names', 'internal/generator/generator.go:fmtColIdent, fmtColIdentQuoted')],
  'all inputs for the functions under contract; the names under which packages are imported, the text of value types and the printing by github.com/frk/ast are covered by a bounded search only (random filters, the generated code read back)')

CHK = ['internal/postgres/postgres.go']
CNOTE = 'all inputs for the functions under contract, against the catalog as it was loaded; the functions that only pass conditions and joins on, and the table of converters, are covered by a search that is exhaustive over the table and bounded otherwise'

prop('C01', 'A record field is bound to its column through a converter that fits',
  'When a query or filter type is checked, exactly the fields that the kind of query, their flags and the force, optional and return directives select are bound, in order, each to the column its tag names and through the converter listed for that column type and Go type (none where the Go type brings its own or the driver handles it). A field that names no column, whose Go type nothing converts, or that asks for a default the column does not have is rejected. Every converter listed exists in pgsql, converts in the direction it is listed for and takes that Go type.',
  ['inputs'], 'every record, every relation and every set of directives; every entry of the converter table',
  'The tests check a few dozen structs against a live database; which converter a field gets depends on column type, length, Go type, its methods, its flags and three directives together, and the table has hundreds of entries of which most are in no test.',
  CHK + ['internal/postgres/compatibility.go', 'internal/analysis/types.go'],
  [('written fields', 'internal/postgres/postgres.go:typeCheckFieldWrite'), ('read fields', 'internal/postgres/postgres.go:typeCheckFieldRead'), ('filter fields', 'internal/postgres/postgres.go:typeCheckFieldFilter'), ('converter lookup', 'internal/postgres/postgres.go:typeCompatibility'), ('converter table', 'internal/postgres/compatibility.go')],
  CNOTE)

prop('C02', 'A condition is accepted only if PostgreSQL can evaluate it',
  'A condition between columns, literals and fields, in a where or join and nested to any depth, is accepted exactly if its columns exist and its operands fit its predicate: equal types, or an operator of the catalog for them (after an implicit cast, for columns and literals); truth tests take a boolean column, null tests a nullable one, list predicates and quantifiers an array. Accepted conditions reach the generator complete, in order, with the columns, operands, predicate, quantifier, function and AND/OR they were declared with. Force, default, order by and text search directives are accepted exactly if the columns they name exist (with a default, of type tsvector).',
  ['inputs'], 'every condition, every relation and join, every catalog of types, operators, casts and functions',
  'The tests check a few dozen structs against the catalog of one live database; acceptance depends on the operand types, the casts and operators present, the predicate and the quantifier together, and most combinations are in no test.',
  CHK, [('column conditions', 'internal/postgres/postgres.go:typeCheckColumnConditional, typeCheckComparison'), ('field conditions', 'internal/postgres/postgres.go:typeCheckFieldConditional, typeCheckFieldConditionalWithFunc'), ('nesting', 'internal/postgres/postgres.go:typeCheckQueryWhereStruct, typeCheckWhereItem, typeCheckWhereBetweenStruct'), ('directives', 'internal/postgres/postgres.go:typeCheckQueryForceDirective and its siblings')],
  CNOTE)

prop('C03', 'An ON CONFLICT target is accepted only if it is unique',
  'An ON CONFLICT clause is accepted exactly if what it names can decide a conflict: columns that are together the key of a unique or primary index, a unique or primary index, or a unique or primary key constraint of the target relation. The target passed on is that index or constraint, and the columns to update are exactly those declared (all written fields for *), in order.',
  ['inputs'], 'every relation with any indexes and constraints, every conflict directive',
  'The tests use a handful of tables with one or two indexes each; picking the wrong one of several indexes over the same columns, or a non-unique one, shows only on relations that no test has.',
  CHK, [('conflict check', 'internal/postgres/postgres.go:typeCheckQueryOnConflictStruct'), ('index matching', 'internal/postgres/postgres.go:matchNumbers, findRelIndex')],
  CNOTE)

prop('A01', 'Struct tags mean what is written in them',
  'The sql tag of a field is read as documented: its options are applied in the order written to what the field may be used for (select, filter, insert, update, null), relation and column identifiers are accepted exactly if well-formed (no duplicate relation name, no unknown qualifier, no reserved word) and split into qualifier, name and alias. A condition splits into exactly its column, predicate, quantifier and right-hand side for every predicate, in any case and spacing. Filter keys, modifier functions and coalesce values are those the tags and the configuration name.',
  ['inputs'], 'every list of tag values and options, every identifier text, every predicate and quantifier in a condition, every configuration of filter keys',
  'The tests analyse a fixed set of structs; how options combine, and where a hand-written condition is split, depends on texts no test struct has (an operand that starts like a quantifier, options that undo one another).',
  ['internal/analysis/analysis.go', 'internal/analysis/fieldmode.go', 'internal/analysis/enums.go'],
  [('options', 'internal/analysis/fieldmode.go:parseFieldMode'), ('identifiers', 'internal/analysis/analysis.go:parseRelIdent, parseColIdent, parseColIdentList, addToRelSpace'), ('conditions', 'internal/analysis/analysis.go:parsePredicateExpr'), ('filter keys', 'internal/analysis/analysis.go:parseFilterColumnKey, joinFieldTag, joinFieldName')],
  'all inputs for the functions under contract (the regular expressions of identifiers by contract of package regexp); reading of the options, splitting of conditions, coalesce values and the choice of the filter key by a bounded search only')
