CASE = ('Trusts TLC, the generators and the encoding of real values (hk/enc.py, '
        'hk/qenc.py). Exhaustive for the cases enumerated by TLC, seeded '
        'sampling beyond them. ')

prop('C10', 'Merged queries request exactly what the merged queries request',
     'Merging queries gives a query which, at every depth, requests exactly '
     'the union of what they request, each request (name, options, alias) once '
     'per node; requests which differ in name, option values or alias stay '
     'separate. Ordered (mutation) nodes keep the order in which requests '
     'first appear. Merging is idempotent and does not change its arguments.',
     ['programs', 'inputs'],
     'every list of query nodes',
     'Tests merge three fixed pairs of queries.',
     ['hiku/query.py'],
     [('merge, _merge', 'hiku/query.py'), ('FieldBase.options_key', 'hiku/query.py')],
     ['result of merge()'],
     'TLA+ specification of merging (HikuMerge): theorems model checked over '
     'all small lists of nodes, all of them replayed into the real merge(), '
     'recorded calls with random lists decided by TLC', CASE)

prop('C11', 'GraphQL documents mean what the GraphQL language says',
     'Reading a GraphQL document gives the query it denotes: selections of '
     'the chosen operation with fragments and inline fragments expanded, '
     'arguments and aliases, values of variables (given, default or null) in '
     'their places, selections dropped by @skip/@include left out, equal '
     'selections merged, order of mutations kept. Invalid documents (no or '
     'ambiguous operation, duplicate, unknown or cyclic fragments, undefined '
     'or missing variables, wrong directive arguments) are rejected with an '
     'error, valid ones never are. Spelling (whitespace, comments, escapes, '
     'order of definitions) does not matter.',
     ['programs', 'inputs', 'configurations'],
     'every document, variables and operation name',
     'Tests read a few dozen fixed documents; combinations of nested '
     'fragments, directives and variables are never exercised.',
     ['hiku/readers/graphql.py'],
     [('OperationGetter', 'hiku/readers/graphql.py'),
      ('FragmentsTransformer', 'hiku/readers/graphql.py'),
      ('SelectionSetVisitMixin', 'hiku/readers/graphql.py')],
     ['read(), read_operation()'],
     'TLA+ semantics of GraphQL documents (HikuGraphQL): theorems model '
     'checked over a family of all small documents, all replayed into the '
     'real reader, random documents decided by TLC', CASE)

prop('C12', 'Only executable queries pass validation',
     'Validation of a query against a graph reports no errors exactly when '
     'every requested name exists, is requested the way it is declared '
     '(links and fields of complex types with or without sub-fields), all '
     'required options are given, all options are declared and their values '
     'have the declared types, and no two different requests of one node '
     'share a result name. Every violated requirement is named in the '
     'errors; validation itself never fails and a query it accepts executes '
     'and denormalizes.',
     ['programs', 'inputs', 'configurations'],
     'every graph and query',
     'Tests check some thirty fixed queries against one graph.',
     ['hiku/validate/query.py'],
     [('QueryValidator', 'hiku/validate/query.py'),
      ('_OptionTypeValidator', 'hiku/validate/query.py'),
      ('_ValidateOptions', 'hiku/validate/query.py')],
     ['errors returned by validate()', 'outcome of executing accepted queries'],
     'TLA+ specification of valid queries (HikuValidate): theorems model '
     'checked over all small queries of a graph, all replayed into the real '
     'validate(), random graphs and queries decided by TLC', CASE)

prop('C13', 'Denormalized results have the shape of the query',
     'denormalize(), Denormalize and DenormalizeGraphQL give, for every '
     'request of the query, its result name (alias or name) with what the '
     'loaders returned: field values, null for missing objects, lists in the '
     'order of identifiers, the requested parts of complex values at every '
     'depth, __typename of the object reached; nothing else is included.',
     ['programs', 'inputs', 'configurations'],
     'every graph, query and data',
     'Tests denormalize a few fixed results.',
     ['hiku/denormalize', 'hiku/result.py'],
     [('Denormalize', 'hiku/denormalize/base.py'),
      ('DenormalizeGraphQL', 'hiku/denormalize/graphql.py'),
      ('denormalize', 'hiku/result.py'), ('Proxy', 'hiku/result.py')],
     ['denormalized results'],
     'TLA+ specification of the denormalized result straight from the '
     'loaders\' data (HikuDenorm): results of random executions through all '
     'denormalizers decided by TLC', CASE)

prop('C15', 'SQL sources answer what the tables contain',
     'Fields read through FieldsQuery are the values of the row with the '
     'given primary key, or nulls when there is none, one row per requested '
     'identifier in their order, whatever the order and number of rows the '
     'database returns. Links through LinkQuery lead exactly to the rows '
     'related by their columns: all of them for many, one or Nothing for '
     'optional, an error for a missing required one; NULL is related to '
     'nothing. Answers come from the tables as they are when they are asked. '
     'Each call makes at most one statement, none when there is '
     'nothing to ask for. It holds for the synchronous, asynchronous and '
     'aiopg flavours alike; types of fields follow types of columns.',
     ['inputs', 'programs', 'configurations'],
     'every table, list of identifiers and requested columns',
     'Tests run four queries against one small database; results longer '
     'than one portion, duplicates, NULLs and joins are never read.',
     ['hiku/sources/sqlalchemy.py', 'hiku/sources/aiopg.py',
      'hiku/sources/sqlalchemy_async.py'],
     [('FieldsQuery', 'hiku/sources/sqlalchemy.py'),
      ('LinkQuery', 'hiku/sources/sqlalchemy.py'),
      ('FieldsQuery, LinkQuery', 'hiku/sources/aiopg.py'),
      ('FieldsQuery, LinkQuery', 'hiku/sources/sqlalchemy_async.py')],
     ['results of loaders', 'statements executed', 'results of queries'],
     'TLA+ relational specification (HikuSQL): theorems model checked over '
     'all small tables, all replayed into the three real sources on SQLite, '
     'random calls, joins and whole executions decided by TLC',
     CASE + 'PostgreSQL drivers are replaced by asynchronous stand-ins over '
     'SQLite, = ANY is rewritten to IN.')

prop('C16', 'Introspection describes the graph as it is',
     'Introspection queries give the schema of the graph: every node, root '
     'and record data type is an object with exactly its public fields, '
     'their arguments, defaults (as GraphQL literals) and descriptions; types are translated '
     'faithfully (required and optional, lists, references, Any), every '
     'type referred to is defined once, __type(name:) finds each of them, '
     'mutations appear only if there are any. The answer to a query about a '
     'part of the schema agrees with the whole. Synchronous and '
     'asynchronous introspection give the same. Graphs which GraphQL can '
     'not describe (names with other characters, nodes without fields) are '
     'refused, with all that is wrong.',
     ['programs', 'inputs', 'configurations'],
     'every graph and introspection query',
     'Tests compare one fixed query for a few fixed graphs.',
     ['hiku/introspection/graphql.py'],
     [('GraphQLIntrospection', 'hiku/introspection/graphql.py'),
      ('AsyncGraphQLIntrospection', 'hiku/introspection/graphql.py'),
      ('TypeIdent', 'hiku/introspection/graphql.py')],
     ['results of introspection queries', 'construction of graphs with introspection'],
     'TLA+ specification of schemas and answers (HikuSchema): schemas of '
     'all small graphs model checked (closed, nullability) and replayed, '
     'random graphs and introspection queries decided by TLC', CASE)

prop('C17', 'Telemetry observes executions without changing them',
     'A graph with GraphMetrics or AsyncGraphMetrics applied executes '
     'exactly like the graph without them: same loader calls, arguments, '
     'results, failures. Every successful call of a loader or subgraph is '
     'observed once for each field it was asked for, labelled with the '
     'graph, node and field, with a duration not shorter than the loader '
     'took; nothing else is observed.',
     ['programs', 'inputs', 'schedules'],
     'every graph, query and schedule',
     'Tests count three calls of two graphs.',
     ['hiku/telemetry/prometheus.py'],
     [('GraphMetricsBase', 'hiku/telemetry/prometheus.py'),
      ('_SubqueryMixin', 'hiku/telemetry/prometheus.py')],
     ['loader calls', 'samples of the metric'],
     'executions of graphs with metrics validated by TLC against the engine '
     'specification, their samples against HikuMetrics',
     CASE)

prop('C18', 'GraphQL endpoints answer every request on its own',
     'The response to a request sent to a GraphQL endpoint is either the '
     'data of its query, shaped like the document it came in, or a list of '
     'error messages, and never both: errors if the document cannot be '
     'parsed or read, names no operation it has, is of a type the endpoint '
     'has no graph for, or is not valid for that graph (__typename being a '
     'field without options and sub-fields of every object), without executing '
     'anything; data otherwise. Queries are executed with the query graph, '
     'mutations with the mutation graph and in their order; each request asks '
     'its root by itself, once for each field. A batch gets '
     'one response for each request in its order. Responses do not depend '
     'on other requests of the batch, on requests the endpoint dispatched '
     'before, or on requests being dispatched concurrently, and requests '
     'are not changed.',
     ['programs', 'inputs', 'histories'],
     'every graph, request and history of requests',
     'Tests dispatch one introspection request and one batch.',
     ['hiku/endpoint/graphql.py', 'hiku/readers/graphql.py',
      'hiku/validate/query.py', 'hiku/denormalize/graphql.py'],
     [('_switch_graph', 'hiku/endpoint/graphql.py'),
      ('_process_query', 'hiku/endpoint/graphql.py'),
      ('BatchGraphQLEndpoint', 'hiku/endpoint/graphql.py'),
      ('AsyncBatchGraphQLEndpoint', 'hiku/endpoint/graphql.py')],
     ['responses', 'loader calls of the root'],
     'TLA+ specification of endpoints (HikuEndpoint), which puts reading, '
     'validation and denormalization together: random graphs, documents '
     'and histories of requests are executed by real endpoints and decided '
     'by TLC', CASE)


prop('C19', 'EDN texts mean what they say',
     'Writing any value (nothing, booleans, numbers, strings of any '
     'characters, keywords, symbols, vectors, lists, mappings, sets, '
     'instants, UUIDs, tagged elements, nested in any way; what the default '
     'function makes of others) gives a text which means the value, and '
     'reading gives the value a text means, however it is spaced, commented '
     'or escaped; handlers of tags get the values their elements mean. '
     'Texts which mean nothing, unbalanced, unfinished, of more '
     'than one value or of none, are refused, and so are values which can '
     'not be written. Values are equal exactly when they mean the same, and '
     'mappings which were read can not be changed.',
     ['inputs'],
     'every value and every text',
     'Tests read three texts and write one value.',
     ['hiku/edn.py'],
     [('loads', 'hiku/edn.py'), ('dumps', 'hiku/edn.py'),
      ('parser', 'hiku/edn.py')],
     ['values read', 'texts written'],
     'TLA+ specification of the notation as a machine which consumes a text '
     'character by character (HikuEDN): all texts up to a length are '
     'enumerated by TLC and replayed into the real reader; random values '
     'and texts, and texts with mistakes, are decided by TLC', CASE)

prop('C20', 'Queries mean the same in every notation',
     'A query exported as EDN, as a Protocol Buffers message or as a '
     'GraphQL document is read back as the same query (without aliases in '
     'EDN and messages, with numbers as doubles in messages), whatever its '
     'options; the export leaves it as it was. Readers give the query an '
     'EDN value or a message denotes, with every field, link and option, '
     'and refuse what denotes none. The builder gives what its handles say. '
     'Two queries are equal exactly if their nodes, fields, links, names, '
     'aliases, options and order are.',
     ['programs', 'inputs'],
     'every query, EDN value, message and expression of the builder',
     'Tests export and read a few fixed queries.',
     ['hiku/query.py', 'hiku/export/simple.py', 'hiku/export/protobuf.py',
      'hiku/export/graphql.py', 'hiku/readers/simple.py',
      'hiku/readers/protobuf.py', 'hiku/builder.py'],
     [('transform', 'hiku/readers/simple.py'),
      ('transform', 'hiku/readers/protobuf.py'),
      ('export', 'hiku/export/graphql.py'), ('build', 'hiku/builder.py')],
     ['queries read back'],
     'TLA+ specification of the notations (HikuNotation): random queries, '
     'EDN values, messages and builder expressions are exported and read by '
     'the real code, the results are decided by TLC', CASE)


prop('C21', 'Graphs are what their definitions say',
     'A graph is constructed from exactly the nodes, fields, links, options '
     'and data types given, or is refused with every problem which it has '
     '(links to missing nodes, required fields which are missing, '
     'duplicates, members of a wrong kind) and none else; a link leads to one '
     'object, maybe one or many, as its type says, other types are refused; '
     'parts of a graph are not changed. What it tells about itself (root, nodes, types) agrees with '
     'its definition. Transformers give a graph with exactly the changes '
     'they make, applied one after another, postprocessed and validated '
     'again; the graph transformed is kept as it was.',
     ['programs', 'configurations'],
     'every definition of a graph and sequence of transformers',
     'Tests validate one graph per mistake and apply one transformer.',
     ['hiku/graph.py', 'hiku/validate/graph.py', 'hiku/utils.py'],
     [('Graph', 'hiku/graph.py'), ('GraphInit', 'hiku/graph.py'),
      ('apply', 'hiku/graph.py'), ('GraphTransformer', 'hiku/graph.py'),
      ('GraphTypes', 'hiku/graph.py'),
      ('GraphValidator', 'hiku/validate/graph.py')],
     ['validation messages', 'structure and types of graphs'],
     'TLA+ specification of construction, validation and transformation '
     '(HikuGraphs), checked with TLC; enumerated and random definitions and '
     'sequences of transformers are built by the real code and decided by '
     'TLC', CASE)

prop('C22', 'The developer console answers what the engine would',
     'The console routes requests by path and method, reads queries in EDN '
     'up to its limit and no further than the length announced, answers '
     'with the value the graph gives for a valid query, with what is wrong '
     'for an invalid one, and with a traceback, in debug mode only, for '
     'texts which are no queries and for failures of loaders; responses are '
     'independent of the requests before. Its documentation describes '
     'exactly the nodes, fields, links, options and types of the graph.',
     ['programs', 'inputs', 'histories'],
     'every graph and history of requests',
     'Tests of the console do not exist; two graphs are documented.',
     ['hiku/console/ui.py', 'hiku/typedef/kinko.py'],
     [('__call__', 'hiku/console/ui.py'),
      ('_index_post', 'hiku/console/ui.py'),
      ('dumps', 'hiku/typedef/kinko.py'),
      ('GraphTypesEx', 'hiku/typedef/kinko.py')],
     ['responses of the application', 'documentation'],
     'TLA+ specification of the console (HikuConsole) over those of queries, '
     'validation and denormalization: random graphs and histories of '
     'requests are executed by the real application and decided by TLC',
     CASE)

prop('C23', 'Expressions are checked against the low-level graph',
     'A graph is refused, when it is constructed, if one of its expressions '
     'mentions data which the low-level graph does not have or uses data in '
     'a way its type does not allow: fields of optional objects, iteration '
     'over what is no sequence, wrong number of arguments, arguments without '
     'what the function needs or of unknown type where a type is wanted. '
     'All other expressions are accepted, can be evaluated for all data '
     'which conforms to the types of the low-level graph, give the value '
     'they denote, and load nothing that is not mentioned.',
     ['programs', 'inputs'],
     'every low-level graph, expression over it and conforming data',
     'Tests check a dozen expressions, one by one, over one graph.',
     ['hiku/expr/checker.py', 'hiku/expr/refs.py', 'hiku/expr/compiler.py',
      'hiku/sources/graph.py'],
     [('check_type', 'hiku/expr/checker.py'),
      ('Checker', 'hiku/expr/checker.py'),
      ('RequirementsExtractor', 'hiku/expr/refs.py'),
      ('BoundExpr', 'hiku/sources/graph.py')],
     ['construction of graphs with expressions', 'values of the fields',
      'calls of low-level loaders'],
     'TLA+ specification of the types, meaning and needs of expressions '
     '(HikuExprTypes), whose soundness is checked with TLC for all small '
     'expressions; these and random ones over random graphs are built and '
     'executed by the real code and decided by TLC', CASE)
