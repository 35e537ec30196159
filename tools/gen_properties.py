#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
C="crates/"
ENG4=["jsonpath_rfc9535_serde","jsonpath_rfc9535_iter","jsonpath_rfc9535_locations","jsonpath_rfc9535_singular_selector"]
SF=[C+e+"/src/standard_functions.rs" for e in ENG4]
def files(fmt): return [C+e+"/src/"+fmt for e in ENG4]
P=[]
def p(id,title,statement,over,qtext,why,fls,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=fls,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Concurrent evaluations give the results each would give alone",
 "Any number of threads may evaluate queries at the same time through one environment (the default one or a shared custom one), sharing compiled queries, documents and custom functions, in each of the four evaluating crates. Every evaluation returns exactly the nodes (same values, same locations, same order), errors and panics that the same evaluation returns when it runs alone in a fresh process, and no interleaving deadlocks or livelocks. Compiled queries, parsers and environments stay shareable between threads.",
 ["schedules","histories"],"every interleaving of every set of concurrent evaluations, including ones suspended in the middle of any internal update of shared state",
 "All existing tests are single-threaded inside a test body; the only shared mutable state (default environment, match/search pattern caches) is never exercised by two threads at a chosen point of each other's execution.",
 files("standard_functions.rs")+files("env.rs")+[C+"jsonpath_rfc9535_serde/src/ast.rs",C+"jsonpath_rfc9535_iter/src/iter.rs",C+"jsonpath_rfc9535_iter/src/filter.rs",C+"jsonpath_rfc9535_locations/src/selector.rs",C+"jsonpath_rfc9535_locations/src/filter.rs",C+"jsonpath_rfc9535_singular_selector/src/selector.rs",C+"jsonpath_rfc9535_singular_selector/src/filter.rs"],
 [("Mutex around each pattern cache; Sync bound on registered functions; evaluation otherwise only reads shared data",C+"*/src/standard_functions.rs, */src/function.rs")],
 [("pattern cache","LRU map pattern -> compiled regex, one per Match and Search instance",C+"*/src/standard_functions.rs"),("default ENV","lazily built process-wide environment",C+"*/src/jsonpath.rs")],
 ["return values of find/find_loop/Query::find/Environment::find and the sequence of QueryIter items"])

p("C02","match() and search() answers do not depend on which patterns were used before",
 "For every pattern and every string, match() answers whether the pattern matches the whole string and search() whether it matches a substring, and an invalid pattern always makes the answer false, whatever patterns, valid or not, were used before in the same environment, in whatever order, however many distinct ones, and from whatever threads. A pattern keeps its answer after it has been evicted from and re-entered into the environment's memory of patterns, and match() and search() never influence each other.",
 ["histories","schedules","inputs"],"every history of pattern uses (lengths well beyond the cache capacity of 100), by one or several threads, with any recency structure",
 "Tests and the compliance suite use a handful of distinct patterns per process, never exceed the cache capacity, and never re-use a pattern after eviction or concurrently.",
 SF,[("LRU cache keyed by the full pattern text; invalid patterns are not cached",C+"*/src/standard_functions.rs Match::call, Search::call")],
 [("cache","LruCache<String, Regex> capacity 100",C+"*/src/standard_functions.rs")],["filter results that depend on match/search"])

p("C03","A panicking custom function harms only the evaluation that called it",
 "When a custom function panics, the panic reaches the caller of that evaluation with its payload unchanged and nothing else happens: evaluations running concurrently in other threads, and every later evaluation in any thread on the same environment, compiled query and document, behave as if the failed evaluation had never been started. This holds for any number of such panics, at any call, in any nesting of filters, and for panics of lazy iterators between or during pulls.",
 ["fault_sequences","schedules","histories"],"every set of panicking calls (which function, which call index, which thread), interleaved arbitrarily with other evaluations",
 "No existing test registers a function that panics, so no test covers unwinding through an evaluator, let alone concurrent or repeated unwinding.",
 files("filter.rs")[1:]+[C+"jsonpath_rfc9535_serde/src/ast.rs",C+"jsonpath_rfc9535_iter/src/iter.rs"]+files("function.rs"),
 [("extensions are called with no lock held and no shared state partially updated",C+"*/src/filter.rs FilterExpression::evaluate; serde ast.rs")],
 [],["panic payload at catch_unwind around the evaluation; results of all other evaluations"])

p("C04","Evaluations started from inside a custom function are independent",
 "A custom function may itself compile and evaluate queries, on the same or another document, through the same or another environment, and recursively, while the outer evaluation is in progress. The inner evaluation returns what it returns on its own, the outer one returns what it would have returned had the function computed its answer without evaluating anything, and nothing deadlocks or is refused, from any thread.",
 ["histories","schedules"],"every nesting (any depth, any call index, any inner query) of evaluations and parses within evaluations, also with other threads evaluating at the same time",
 "No existing test evaluates from within an extension; re-entrancy conflicts (a lock or borrow held across the call) only appear on that path.",
 files("function.rs")+files("env.rs")+SF+[C+"jsonpath_rfc9535_serde/src/ast.rs"]+files("filter.rs")[1:],
 [("no lock, RefCell borrow or scratch buffer is held while an extension runs",C+"*/src/filter.rs, serde ast.rs")],[],["results of inner and outer evaluation; progress"])

p("C05","A suspended evaluation never blocks anyone else",
 "If one evaluation is suspended for an unbounded time at a point the caller controls (inside a custom function, between two pulls of a lazy iterator, inside the writer a query is being rendered to), then parsing, evaluation, iteration and rendering in all other threads, and through other objects in the same thread, still complete, with their usual results, in about the number of steps they need when nobody is suspended. When the suspended evaluation is resumed it completes normally.",
 ["schedules","fault_sequences"],"every placement of indefinite stalls at caller-controlled points and every schedule of the remaining threads",
 "Progress under a stalled peer is a liveness property over schedules; existing tests have no second thread and no stall.",
 SF+files("function.rs")+[C+"jsonpath_rfc9535_iter/src/iter.rs"]+files("env.rs"),
 [("pattern-cache locks are released before call returns; no lock spans a call-out",C+"*/src/standard_functions.rs, */src/filter.rs")],[],["completion of other threads' operations within a bounded number of simulated steps"])

p("C06","Lazy iterators yield the eager result however they are pulled or abandoned",
 "A query iterator of the iter crate yields, item by item, exactly the eager result of the same query in the same order, then stays exhausted, whatever happens between pulls: other iterators (also over the same document and environment) being pulled alternately, other evaluations, long pauses, or iterators being dropped half-way, which affects no other. Work is on demand: the filter of the query's last segment is never evaluated on candidates beyond the one that produces the item being pulled, and abandoning an iterator means no further custom function calls.",
 ["schedules","histories","crash_points"],"every interleaving of creation, pulls and drops of any number of iterators, and every cancellation point",
 "Tests collect each iterator at once, one at a time; they never interleave, pause, abandon or poll past the end, and never observe how much work was done.",
 [C+"jsonpath_rfc9535_iter/src/iter.rs",C+"jsonpath_rfc9535_iter/src/segment.rs",C+"jsonpath_rfc9535_iter/src/node.rs",C+"jsonpath_rfc9535_iter/src/env.rs",C+"jsonpath_rfc9535_iter/src/jsonpath.rs"],
 [("QueryIter / SegmentIter / SelectorIter / filter iterators own all their position state",C+"jsonpath_rfc9535_iter/src/iter.rs")],
 [("iterator position","which node, selector and candidate comes next",C+"jsonpath_rfc9535_iter/src/iter.rs")],["items of QueryIter::next, calls received by custom functions"])

p("C07","Memory is bounded under any history and nothing leaks",
 "What the library keeps in memory between calls is bounded: after any history of parses, evaluations, iterations, cancellations and panics, over any number of distinct queries, patterns, documents and environments, dropping the objects the caller owns returns all memory except a bounded set of remembered patterns, and repeating a history does not make it grow.",
 ["histories","fault_sequences"],"every history, of any length, including ones with panicking functions, abandoned iterators and far more distinct patterns than are remembered",
 "No test measures memory; leaks and unbounded caches are invisible to result-only assertions, and only show over long histories.",
 SF+[C+"jsonpath_rfc9535_locations/src/conslist.rs",C+"jsonpath_rfc9535_singular_selector/src/conslist.rs",C+"jsonpath_rfc9535_iter/src/iter.rs"]+files("env.rs"),
 [("LRU capacity 100 per function; Rc lists without cycles; owned query trees",C+"*/src/standard_functions.rs, */src/conslist.rs")],
 [("live bytes","bytes allocated by the library and not yet freed","simulated allocator")],["simulated allocator's live-byte and live-block counters between rounds"])

p("C08","A failed allocation never yields a wrong result or a broken environment",
 "If a memory allocation fails during an evaluation or a parse and the process handles it by unwinding, that operation either unwinds or returns its normal result, never a different one. Every other evaluation, and every later one with memory available again, on the same default or custom environment, gives its normal result, wherever the failure struck, except in the one-off first-use initialisation of a process-wide default.",
 ["fault_sequences","crash_points","histories"],"every allocation point of every operation, one or more failures, any later history",
 "Allocation failures cannot be produced by ordinary tests; the state they leave behind (poisoned locks, half-updated caches) has never been exercised.",
 SF+files("env.rs")+files("jsonpath.rs"),
 [("cache updates happen under a lock whose state stays usable if the update is abandoned",C+"*/src/standard_functions.rs")],
 [("pattern caches","may be mid-update when an allocation fails",C+"*/src/standard_functions.rs")],["result of the failing operation; results of later operations"])

p("C09","Parsing depends only on the parser's configuration and the query text",
 "In all seven crates, parsing a query text returns the same syntax tree (seen through its rendering) or the same error kind, message and position every time for a given parser configuration: regardless of what was parsed before (valid, invalid, or aborted by a panic or an allocation failure), through which instance or the shared default, in which thread, or concurrently with what.",
 ["histories","schedules","fault_sequences"],"every history and interleaving of parse calls on shared and separate parser instances",
 "Tests parse each text once in isolation; hidden parser state, thread-shared scratch or caches would pass all of them.",
 [C+"jsonpath_rfc9535/src/lexer.rs",C+"jsonpath_rfc9535/src/parser.rs",C+"jsonpath_rfc9535/src/query.rs",C+"jsonpath_rfc9535_pest/src/parser.rs",C+"jsonpath_rfc9535_pest_recursive/src/parser.rs"]+files("parser.rs"),
 [("parse(&self) keeps all position state in locals; shared default parser is immutable",C+"*/src/parser.rs, */src/lexer.rs")],[],["Ok(tree text) / Err(kind, msg, span) of Parser::parse, JSONPathParser::parse, Query::standard, lexer::tokenize, lexer::lex"])

p("C10","Function registrations take effect at once, and only where they were made",
 "Registering, replacing or removing a function, or changing the index range, on one parser or environment is effective for every later use of that instance and has no effect on any other instance, on the shared defaults, on queries already compiled, or on evaluations in progress elsewhere. This holds for any interleaved history of registrations and uses across instances and threads.",
 ["histories","schedules","configurations"],"every interleaved history of registrations and uses over several parser and environment instances of all crates",
 "Tests use only the default configuration or a single registration up front; they never change a registry between uses or check another instance afterwards.",
 files("env.rs")+files("function.rs")+files("parser.rs")+[C+"jsonpath_rfc9535/src/parser.rs",C+"jsonpath_rfc9535_pest/src/parser.rs",C+"jsonpath_rfc9535_pest_recursive/src/parser.rs"],
 [("each Environment / parser owns its registry map; lookups happen per use",C+"*/src/env.rs, */src/parser.rs, */src/filter.rs")],
 [("function_register / functions / function_signatures / index_range","per-instance registry",C+"*/src/env.rs, */src/parser.rs")],["parse outcomes and which registered function answers"])

p("C11","First use is safe from any number of threads",
 "Whichever threads make the first use of the library in a process, and however those first uses (parses, evaluations, iterations of any crate, through any entry point) are interleaved or nested, each gets the result it would get as the only user of an already warmed-up process. No first use deadlocks or observes a half-initialised default.",
 ["schedules"],"every interleaving of the first uses by several threads in a fresh process, including switches in the middle of initialisation",
 "Initialisation happens once per process, so a test process exercises exactly one, uncontrolled, ordering of it.",
 files("jsonpath.rs")+[C+"jsonpath_rfc9535_serde/src/ast.rs"]+files("query.rs")[1:]+[C+"jsonpath_rfc9535/src/query.rs",C+"jsonpath_rfc9535_pest/src/ast.rs",C+"jsonpath_rfc9535_pest_recursive/src/ast.rs"],
 [("lazy_static Once around PARSER and ENV",C+"*/src/jsonpath.rs, */src/query.rs, */src/ast.rs")],
 [("PARSER, ENV","process-wide defaults, built on first use",C+"*/src/query.rs, */src/jsonpath.rs")],["results of the first operations of each thread; progress"])

p("C12","Rendering to a failing writer reports the failure and writes nothing wrong",
 "Rendering a query, or any part of one, to a text sink that may refuse, panic, stall or itself use the library returns an error exactly when the sink refused a write, never panics by itself, and whatever the sink accepted is a prefix of the full rendering, with no write attempted after a refused one. Aborted renderings change nothing: later renderings and uses of the same query give their full normal result.",
 ["fault_sequences","crash_points","schedules"],"every write index at which the sink fails, panics, stalls or re-enters, for every query, also concurrently",
 "Tests only render into a String, which never fails, so no error path of any Display implementation has been run.",
 [C+"jsonpath_rfc9535/src/query.rs",C+"jsonpath_rfc9535/src/token.rs",C+"jsonpath_rfc9535_pest/src/ast.rs",C+"jsonpath_rfc9535_serde/src/ast.rs"]+[C+e+"/src/"+f for e in ENG4[1:] for f in("query.rs","segment.rs","selector.rs","filter.rs")],
 [("Display implementations propagate the formatter's error with ? or by returning it",C+"*/src/query.rs, ast.rs, segment.rs, selector.rs, filter.rs")],[],["fmt::Result of write!, text accepted by the sink"])

p("C13","Custom functions see exactly the calls the query implies, on the caller's thread",
 "During an evaluation a custom function is called only by the thread driving that evaluation and only between its start and its end (or between the start and end of a pull of a lazy iterator); the sequence of calls and their arguments is that of the same evaluation run alone, regardless of other threads, of earlier evaluations and of how often the query was used before. Results of calls are never cached, merged, repeated, skipped or reordered, and an evaluation cut short by a panic has made exactly a prefix of those calls.",
 ["schedules","histories","fault_sequences"],"every interleaving with other evaluations and every earlier history, with stateful, stalling or panicking functions",
 "Existing tests register no recording function; call discipline is invisible in results of pure functions.",
 files("filter.rs")[1:]+[C+"jsonpath_rfc9535_serde/src/ast.rs",C+"jsonpath_rfc9535_iter/src/iter.rs"]+files("function.rs"),
 [("FilterExpression::evaluate calls the registered function once per occurrence per candidate node",C+"*/src/filter.rs, serde ast.rs")],[],["arguments and order of FunctionExtension::call, thread identity at the call"])

p("C14","Result nodes stay correct whatever happens to other results",
 "The nodes of a result, and the locations in them, stay usable and unchanged for as long as the caller keeps them: after the query, the environment reference, sibling nodes or other results are dropped or modified, in any order, also when evaluations were aborted in between. Location lists behave as immutable sequences under any history of append, tail, clone, iterate and drop operations, and creating, reading and dropping them works for any length.",
 ["histories"],"every order of creating, extending, cloning, reading and dropping nodes and locations that share structure, with lengths from zero to hundreds of thousands",
 "Unit tests exercise the list operations on a few short lists in fixed order and hardly ever drop shared structure in varying orders; aliasing and lifetime errors need particular drop orders or lengths.",
 [C+"jsonpath_rfc9535_locations/src/conslist.rs",C+"jsonpath_rfc9535_locations/src/node.rs",C+"jsonpath_rfc9535_singular_selector/src/conslist.rs",C+"jsonpath_rfc9535_singular_selector/src/node.rs",C+"jsonpath_rfc9535_iter/src/node.rs",C+"jsonpath_rfc9535_serde/src/ast.rs"],
 [("reference-counted immutable cells with iterative drop",C+"*/src/conslist.rs")],
 [("ConsList cells","shared suffixes of locations",C+"*/src/conslist.rs")],["values and paths read from nodes; elements read from locations"])

p("C15","Results do not depend on hash seeds, clocks, addresses or thread identity",
 "The outcome of parsing, evaluating and rendering (results, order, error texts, calls made to custom functions) is a function of the query, the document and the configuration alone. It is the same in every process and thread, for every hash seed, every reading of the clock, every placement of objects in memory including the re-use of addresses of freed documents, queries and strings, and every order in which functions were registered.",
 ["configurations","histories","schedules"],"every assignment of hash seeds, clock readings (including jumps), heap placements and thread identities, and every allocation/free history",
 "A test run samples one uncontrolled assignment of these and asserts nothing across runs; registries are hash maps with random seeds and allocators re-use addresses arbitrarily.",
 files("env.rs")+files("function.rs")+files("parser.rs")+SF+[C+"jsonpath_rfc9535/src/parser.rs",C+"jsonpath_rfc9535_pest/src/parser.rs",C+"jsonpath_rfc9535_pest_recursive/src/parser.rs"],
 [("hash maps are only used for keyed look-up, never iterated; caches are keyed by content",C+"*/src/function.rs, */src/standard_functions.rs")],[],["all outcomes under different simulated randomness, clocks and allocators"])

p("C16","Stack use grows with nesting depth only, never with the amount of data",
 "Evaluating, iterating and dropping results needs stack in proportion to how deeply the query and the document are nested, and never to how many elements, members, matches, rejected candidates, selectors or preceding pulls there are. In particular any query over arbitrarily wide flat arrays or objects, and dropping arbitrarily long results, completes within a small fixed stack, such as that of a secondary thread.",
 ["inputs","configurations"],"every width of document and result and every small thread stack",
 "Tests use documents of a few elements on large stacks; recursion per element passes all of them and then aborts the process, uncatchably, on wide real data.",
 [C+"jsonpath_rfc9535_iter/src/iter.rs",C+"jsonpath_rfc9535_iter/src/segment.rs",C+"jsonpath_rfc9535_locations/src/conslist.rs",C+"jsonpath_rfc9535_singular_selector/src/conslist.rs",C+"jsonpath_rfc9535_locations/src/selector.rs",C+"jsonpath_rfc9535_locations/src/segment.rs",C+"jsonpath_rfc9535_serde/src/ast.rs"],
 [("loops over siblings, recursion only over depth; iterative list drop",C+"*/src/segment.rs, selector.rs, iter.rs, conslist.rs")],[],["stack high-water mark of simulated threads; completion on small guarded stacks"])

p("C17","A compiled query is unchanged by use, however that use ended",
 "A compiled query, and the document and environment it is applied to, are not altered by being used: after any history of evaluations on different documents and environments, of renderings, and of evaluations aborted by panics, allocation failures or abandonment, also concurrent ones, the query evaluates and renders exactly like a freshly compiled copy and the document still has its original content.",
 ["histories","schedules","fault_sequences"],"every history of uses and abortions of one compiled query over several documents and environments",
 "Tests use each compiled query once on one document, so remembered results, per-query memory, or state left over from an aborted use cannot show.",
 [C+"jsonpath_rfc9535_serde/src/ast.rs"]+[C+e+"/src/"+f for e in ENG4[1:] for f in("query.rs","filter.rs","selector.rs","segment.rs")],
 [("evaluation takes the query by shared reference (or by value, cloned) and stores nothing in it",C+"*/src/query.rs, serde ast.rs")],[],["results and renderings of re-used compiled queries compared with fresh ones"])

# pure properties: listed, not claimed (no schedule, fault, clock or history in them)
p("C20","Queries evaluate as RFC 9535 specifies","For every well-formed and well-typed query and every JSON document, the node list produced is the one RFC 9535 defines: selectors, slices, filters, comparisons, functions, descendant order and duplicates included.",
 ["inputs","programs"],"all queries and documents","The compliance suite samples some hundreds of cases; its submodule is not even present here.",
 files("segment.rs")[1:]+files("selector.rs")[1:]+[C+"jsonpath_rfc9535_serde/src/ast.rs"],[("resolve functions of segments, selectors and filters",C+"*/src")])
p("C21","Exactly the RFC 9535 language is accepted","Every parser accepts every query text that the RFC 9535 grammar and its limits allow and rejects every other text with an error.",
 ["inputs"],"all strings","Tests sample finitely many texts.",[C+"jsonpath_rfc9535/src/lexer.rs",C+"jsonpath_rfc9535/src/parser.rs",C+"jsonpath_rfc9535_pest/src/jsonpath.pest"],[("grammar and hand-written lexer",C+"*/src")])
p("C22","Function expressions are accepted exactly when well typed","A query using function expressions is accepted exactly when arguments and uses are well typed under the registered signatures.",
 ["inputs","configurations"],"all queries and signatures","Tests sample a few signatures.",[C+"jsonpath_rfc9535/src/parser.rs"]+files("parser.rs"),[("assert_well_typed checks in the parsers",C+"*/src/parser.rs")])
p("C23","Rendered queries parse back to the same query","The text a query renders to parses again, to a query that renders the same and selects the same nodes.",
 ["inputs"],"all queries","Tests sample few renderings.",[C+"jsonpath_rfc9535/src/query.rs",C+"jsonpath_rfc9535_serde/src/ast.rs"],[("Display implementations",C+"*/src")])
p("C24","Each node's location is the normalized path of its value","The location of every result node is the RFC 9535 normalized path that leads to exactly its value, and no two nodes at different places share one.",
 ["inputs"],"all documents, including member names that need escaping","Tests use plain member names.",[C+"jsonpath_rfc9535_locations/src/node.rs",C+"jsonpath_rfc9535_serde/src/ast.rs"],[("location construction",C+"*/src/node.rs")])
p("C25","Parsing any text terminates without panicking","For every input string every parser returns a query or an error, without panic, abort or unbounded work.",
 ["inputs"],"all strings","Tests sample finitely many texts.",[C+"jsonpath_rfc9535/src/lexer.rs",C+"jsonpath_rfc9535/src/parser.rs"],[("error returns in lexer and parser",C+"*/src")])
p("C26","All implementations agree","All parsers accept the same language and all evaluators, including find and find_loop, select the same nodes in the same order.",
 ["inputs","programs"],"all queries and documents","Tests compare each crate with fixed expectations only.",[C+"*/src"],[("parallel implementations of one specification",C+"*")])
p("C27","Error positions and token spans lie within the query and on the right token","Spans of tokens, syntax tree parts and errors index the query text at character boundaries and cover exactly the element they describe.",
 ["inputs"],"all strings","Tests sample ASCII texts.",[C+"jsonpath_rfc9535/src/lexer.rs"],[("index bookkeeping in the lexer",C+"jsonpath_rfc9535/src/lexer.rs")])
p("C28","The singular-query selector selects what its inner query's value designates","A selector given as a singular query selects the member or element named by that query's single value, and nothing when there is no such value.",
 ["inputs"],"all documents and queries","Few cases are tested.",[C+"jsonpath_rfc9535_singular_selector/src/selector.rs"],[("SingularQuery selector resolution",C+"jsonpath_rfc9535_singular_selector/src/selector.rs")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in P:
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        f.write(json.dumps(q,ensure_ascii=False)+"\n")
print(len(P))
