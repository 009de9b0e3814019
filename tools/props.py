"""Writes properties.jsonl and MANIFEST.json (kept here to keep them in step)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mech, obs,
         technique, level_note, state=None, level='model_checking',
         built=True):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, tests=tests, files=files, mech=mech, obs=obs,
                  technique=technique, note=level_note, state=state or [],
                  level=level, built=built))


TRUST = ('Trusts TLC, the scenario generator and the recorder (loaders and an '
         'executor which log what the engine asks for; public API only). '
         'Exhaustive for the model-checked catalogue of small scenarios, '
         'seeded sampling beyond it. ')
ENG = ('TLA+ engine specification (HikuEngine): model checked by TLC over all '
       'schedules, its behaviours replayed into the real engine, and recorded '
       'executions of the real engine validated against it')

prop('C01', 'Query result is the meaning of the query under every schedule',
     'Executing a valid query returns, for every requested result key and '
     'every object reached, exactly the value the data loaders define for that '
     'object, field and options, with links resolved to exactly the objects '
     'the link loaders returned, in their order. The result does not depend '
     'on the executor (synchronous, threads, asyncio) or on the order in which '
     'loaders complete. The query, the context and what loaders return are '
     'left as they were.',
     ['inputs', 'programs', 'schedules'],
     'every graph, query and data set, every executor and every completion '
     'order of the loaders',
     'Tests execute a few fixed queries, mostly with one completion order; '
     'interleavings of many outstanding loaders are never explored.',
     ['hiku/engine.py', 'hiku/executors/', 'hiku/result.py'],
     [('Query.process_node, SplitQuery', 'hiku/engine.py'),
      ('store_fields, store_links', 'hiku/engine.py'),
      ('Queue.progress', 'hiku/executors/queue.py')],
     ['result of Engine.execute read by its keys'], ENG, TRUST,
     [{'name': 'Index', 'meaning': 'normalized result', 'where': 'hiku/result.py'}])

prop('C02', 'Loaders are called with exactly the data they depend on',
     'A link loader is called only after the field it requires is loaded for '
     'all objects concerned, and receives exactly these values (one per '
     'object, in order). A field loader receives exactly the requested fields '
     'it serves and exactly the objects reached through the link; loaders '
     'which the query does not need are not called, and every call follows '
     'the documented loader signature.',
     ['inputs', 'schedules'],
     'every graph with required fields, every query and completion order',
     'Tests check arguments of single loaders in two or three fixed queries.',
     ['hiku/engine.py', 'docs/'],
     [('Query._schedule_link, link_reqs, link_result_to_ids', 'hiku/engine.py')],
     ['arguments of every loader call'], ENG, TRUST)

prop('C03', 'No N+1: number of loader calls depends on the query only',
     'For one place in a query, all fields served by one loader are requested '
     'with one call for all objects reached there, and every link with one '
     'call; the number of calls never grows with the number of objects. '
     'Nothing is loaded twice for one place and loaders are not called for '
     'no objects.',
     ['inputs', 'programs'],
     'every query and every amount of data',
     'Tests use two or three objects and rarely count calls.',
     ['hiku/engine.py'],
     [('SplitQuery, Query.process_node', 'hiku/engine.py')],
     ['number and arguments of loader calls'], ENG, TRUST)

prop('C04', 'Work queue: callbacks once, nothing lost, early or stuck',
     'A completion callback of a task runs exactly once, when the task is '
     'done; callbacks of a task set run exactly once, only after all its tasks, '
     'the work they created and all sets forked from it are complete. '
     'Executors wait for exactly the outstanding tasks, everything that can '
     'run is started without waiting for unrelated tasks, and execution ends '
     'when no work is left.',
     ['schedules', 'histories', 'programs'],
     'every sequence of submissions, forks, callbacks and completions',
     'The queue has a handful of hand written scenarios.',
     ['hiku/executors/queue.py', 'hiku/executors/'],
     [('Queue.progress/submit/fork/add_callback', 'hiku/executors/queue.py'),
      ('process', 'hiku/executors/sync.py')],
     ['callbacks run, tasks waited for'],
     'TLA+ queue specification (HikuQueue): all behaviours of small programs '
     'model checked, behaviours replayed into the real queue, recorded runs of '
     'random programs validated; engine traces with every executor',
     TRUST + 'Programs add work only to task sets that are still alive.')

prop('C05', 'Ordered (mutation) nodes run strictly one after another',
     'Items of an ordered query node are executed in the order they are '
     'requested: the next item starts only after the previous one and '
     'everything it schedules at that node has returned, whatever executor is '
     'used. Results are the same as for any other node.',
     ['inputs', 'schedules'],
     'every ordered node (with fields, links, requirements, complex fields) '
     'and every completion order',
     'One test with one order of three steps.',
     ['hiku/engine.py'],
     [('Query._process_node_ordered, GroupQuery', 'hiku/engine.py')],
     ['order of loader calls and returns'], ENG, TRUST)

prop('C06', 'Failing or malformed loaders abort, no partial result',
     'If a loader raises, the very same exception reaches the caller; if a '
     'loader returns data of a wrong shape (missing or extra rows or values, '
     'not a sequence, nothing for a non-optional link) the execution fails '
     'with an error. A required option without a value fails before any '
     'loader runs. A result is never returned when any loader failed, and '
     'well-formed data is never rejected.',
     ['fault_sequences', 'schedules'],
     'every loader call of every query failing in every listed way, with other '
     'loaders in flight',
     'Tests fail single loaders in trivial queries.',
     ['hiku/engine.py', 'hiku/executors/'],
     [('_check_store_fields, _check_store_links, link_result_to_ids',
       'hiku/engine.py'), ('InitOptions', 'hiku/engine.py')],
     ['exception or result of execute'],
     ENG + '; faults enumerated for every call', TRUST)

prop('C07', 'Cancelling an asyncio execution cancels and awaits its loaders',
     'When an execution under asyncio is cancelled, every running loader is '
     'cancelled, no loader is started by later completions, and the execution '
     'ends with the cancellation only after all its loaders have really ended, '
     'whatever they do while being cancelled. No result is returned.',
     ['schedules', 'fault_sequences'],
     'every moment of cancellation and every behaviour of cancelled loaders '
     '(slow cleanup, own errors, ignoring the cancellation)',
     'One test cancels one loader at one point.',
     ['hiku/executors/asyncio.py'],
     [('AsyncIOExecutor.process', 'hiku/executors/asyncio.py')],
     ['end of the awaiting task, ends of loaders'], ENG, TRUST)

prop('C08', 'Options, defaults and context reach loaders unchanged',
     'Every loader of a field or link gets exactly the options declared in the '
     'graph: the value of the query, or the declared default when it is not '
     'given (a field which a link requires is requested with its '
     'defaults); different option values (including values that compare equal or '
     'have equal hashes) are different requests with separate results. A '
     'loader which asks for the context gets the context of the execution as '
     'its first argument, others do not.',
     ['inputs', 'configurations'],
     'every declaration of options and every JSON-like value; every '
     'combination of context-aware loaders',
     'Tests use one or two option values.',
     ['hiku/engine.py', 'hiku/query.py'],
     [('InitOptions', 'hiku/engine.py'), ('index_key', 'hiku/query.py'),
      ('pass_context', 'hiku/engine.py')],
     ['arguments of loaders, values in the result'], ENG, TRUST)

prop('C09', 'Normalized result: shared objects, separate requests, no leaks',
     'An object reached through several paths, with different fields, options '
     'and aliases, shows in every place exactly the values requested there. '
     'Reading a key that was not requested in that place raises an error even '
     'when the value is known from another place; aliases never clash with '
     'names of other fields.',
     ['inputs', 'histories'],
     'every combination of overlapping requests of the same objects',
     'Tests have one object with two paths.',
     ['hiku/result.py', 'hiku/query.py', 'hiku/engine.py'],
     [('Proxy, Index', 'hiku/result.py')],
     ['reading of the result by key and attribute'], ENG, TRUST)

prop('C14', 'Two-level graphs compute what the expressions say',
     'A field defined by an expression over a low-level graph has, for every '
     'object and all option values, the value the expression denotes over the '
     'low-level data (references, each, if, if_some, functions, literals, '
     'nesting and shadowing). Exactly the low-level data the expressions '
     'mention is loaded, in one low-level query per place, with every '
     'executor and completion order.',
     ['programs', 'inputs', 'schedules'],
     'every expression, data and completion order',
     'Tests have a dozen fixed expressions.',
     ['hiku/sources/graph.py', 'hiku/expr/'],
     [('SubGraph', 'hiku/sources/graph.py'),
      ('ExpressionCompiler', 'hiku/expr/compiler.py'),
      ('RequirementsExtractor', 'hiku/expr/refs.py')],
     ['values in the result, low-level loader calls'],
     ENG + ' including the semantics of expressions (HikuExpr)', TRUST)


def more():
    p = os.path.join(V, 'tools', 'props_more.py')
    if os.path.exists(p):
        exec(open(p).read(), globals())


def main():
    more()
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['tests'],
                'anchors': {'files': p['files'], 'state': p['state'],
                            'mechanism': [{'name': n, 'where': w}
                                          for n, w in p['mech']],
                            'observe_at': p['obs'], 'hook_needed': None}})
                    + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
         'checks': [], 'not_applicable': [],
         'notes': 'No hooks in /repo: checks use public APIs only. '
                  'Specification: spec/*.tla (TLA+, TLC).'}
    for p in sorted(P, key=lambda p: p['id']):
        if p['built']:
            m['checks'].append({
                'property': p['id'],
                'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                'technique': p['technique'], 'level': p['level'],
                'level_note': p['note']})
        else:
            m['not_applicable'].append({
                'property': p['id'], 'reason': p['note']})
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    assert all(len(p['title']) <= 80 for p in P), \
        [p['id'] for p in P if len(p['title']) > 80]


main()
