#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
D="src/dataset/impl/indexed_btree_dataset.rs"; BD="src/dataset/impl/btree_dataset.rs"
G="src/dataset/graph/impl/indexed_btree_graph.rs"; BG="src/dataset/graph/impl/btree_graph.rs"
DM="src/dataset/mod.rs"; GM="src/dataset/graph/mod.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Stores behave as sets through any interleaved history",
 "Through any interleaving of clients inserting, removing, bulk-loading, cloning and draining, each of the four graph and dataset stores holds exactly the elements inserted and not since removed: insertion and removal report truthfully whether they changed anything, and membership, size, traversal (each element once, in sorted order) and consuming traversal all agree with that set. A bulk load whose source fails part-way leaves exactly the elements delivered before the failure. Copies evolve independently of the original.",
 ["histories","schedules","inputs","fault_sequences"],
 "every history of client operations on every store kind, every element shape (including one resource in several positions), every scheduling of clients and every point at which a bulk source fails or a traversal is abandoned",
 "Unit tests insert and then remove random elements whose resources are practically never repeated, in one fixed order, without clones, failures or interleaving; the claim is about every history.",
 [BD,D,BG,G],[("slab + ordered index updated together by insert/remove",BD),("index lookup before insertion",D),("extend/from_iter loop over insert",BG)],
 [("quads/triples slab","stored elements by slot",D),("quads_indexes/triples_indexes","ordered index over slots",D),("resources slab + resources_indexes","interned resources with use counts",BD)],
 ["insert/remove return values","contains","len/is_empty","iter/into_iter"])
p("C02","Pattern queries are exact at every point of any history",
 "At any point of any history of insertions and removals, a pattern query over an indexed graph or dataset, with each position free, given (including the default graph) or required equal to another position, and also with several alternatives per position, yields exactly the stored elements that satisfy it, each once. This holds however the pattern was built or transformed before it is issued, for any interleaving of several open cursors, and for cursors abandoned part-way. The yes/no queries and the object and predicate-object listings derived from patterns agree with the same content.",
 ["histories","schedules","inputs"],
 "every history leading to a store, every pattern, every interleaving and cancellation of concurrently open cursors",
 "No existing test runs a pattern query at all; correctness depends on the slots freed and reused by earlier removals and on how the per-role indexes were left by every earlier operation.",
 [D,G,DM,GM,"src/pattern/quad/canonical.rs","src/pattern/triple/canonical.rs"],
 [("leap-frog over per-role slot sets",D),("same for triples",G),("canonical pattern constructors and projections","src/pattern/quad/canonical.rs"),("derived queries",DM)],
 [("as_subject/as_predicate/as_object/as_graph","slots in which a resource plays each role",D)],
 ["pattern_matching","multi_pattern_matching","quad_pattern_matching","contains_*","quad_objects","quad_predicates_objects","triple_*"])
p("C03","Extraction removes exactly what it hands out, however interrupted",
 "Extracting the quads that match a pattern from an indexed dataset hands each matching quad to the caller exactly once and removes exactly the quads handed over, whether the extraction runs to the end, is abandoned or leaked part-way, or is interrupted by a failure while a quad is being copied out. At every such point the quads handed over together with those still stored are exactly those stored before, and a completed extraction leaves no matching quad behind. The dataset, its queries and its views stay correct afterwards.",
 ["histories","crash_points","fault_sequences","inputs"],
 "every prior history, every pattern, every point at which the extraction is dropped, leaked or fails",
 "No existing test covers extraction; exactly-once and conservation must hold at every interruption point.",
 [D],[("clone, then remove, then advance",D),("owned copies of the slot lists taken up front",D)],
 [("cursor slot","next slot to examine",D)],["extract_pattern_matching","iter/contains/len afterwards"])
p("C04","Resource and role views always mirror the content",
 "After any history of insertions, removals, extractions, graph removals and conversions, the resources, subjects, predicates, objects and named graphs that a store lists and counts are exactly those that occur in that role in its current elements, each listed once. Membership tests for resources and for each role agree with those lists.",
 ["histories","schedules","inputs"],
 "every history on every store kind, including resources shared between roles, elements and graphs",
 "Existing tests never look at any of these views; the answer depends on how many other elements still use each resource in each role at every removal.",
 [D,G,BD,BG,DM,GM],[("per-role slot sets and role sets maintained on insert/remove",D),("use counts",BD)],
 [("subjects/predicates/objects/named_graphs","resources playing each role",D),("occurrences","use count of a resource",BD)],
 ["resources/subjects/predicates/objects/named_graphs","*_count","contains_resource","contains_quad_subject etc."])
p("C05","Removing a graph moves exactly that graph's triples out",
 "Removing a named graph or the default graph from an indexed dataset returns exactly the triples that were in that graph and leaves every quad of every other graph in place; asking for a named graph with no quads reports that there is none and changes nothing. If the removal is interrupted by a failure while copying, every other graph is still intact, nothing that was not in the removed graph appears, and the dataset remains consistent and usable.",
 ["histories","fault_sequences","inputs"],
 "every prior history, every graph name (also names used as subject, predicate or object), every interruption point",
 "No existing test removes a graph.",
 [D],[("collect slots of the graph, copy out, remove by slot",D)],None,["remove_graph","iter/pattern queries/views afterwards"])
p("C06","Indexing a store at any moment preserves content and future behaviour",
 "Converting a plain graph or dataset into its indexed form at any point of any history keeps exactly the same content, and from then on every query, view, insertion and removal behaves as in a store that had been indexed from the start.",
 ["histories","crash_points"],
 "every history before and after the conversion, in particular conversions of stores with freed slots",
 "No existing test converts a store; the conversion copies internal slots whose layout depends on all earlier operations.",
 [D,G,BD,BG],[("from_non_indexed / into_indexed rebuild the role indexes over the same slots",D),("same for graphs",G)],None,["into_indexed","From/from_non_indexed","all queries afterwards"])
p("C07","Acknowledged snapshots restore exactly; damaged ones never half-load",
 "A graph or dataset whose serialization reported success restores, after a crash, to exactly the content it had when it was serialized, in any store kind for the same element type, independently of how the stream was chunked or of interrupted and short reads and writes. If writing fails, serialization reports an error; if the stored bytes are truncated or unreadable, restoring reports an error instead of returning partial content; damaged bytes either are rejected or yield only well-formed terms, and never crash the reader. Failed attempts leave the in-memory store unchanged.",
 ["crash_points","fault_sequences","histories"],
 "every content reached by any history, every write/read fault position and kind, every crash point between snapshots",
 "No existing test serializes a store, let alone through a failing stream.",
 [D,G,BD,BG,"src/blankid.rs","src/term/local/mod.rs","src/literal/mod.rs","src/literal/type/mod.rs","src/quad.rs","src/triple.rs"],
 [("sequence serialization of elements",D),("element-by-element restore, errors propagated",D),("validated blank node identifiers","src/blankid.rs")],None,["serde Serialize/Deserialize through a simulated disk"])
p("C08","Text export is a faithful, fault-transparent log of the content",
 "Writing a store as RDF text emits one complete statement line per element in the store's order, from which every term (IRI, blank node, literal with its type or language) can be read back exactly and unambiguously. If the output sink fails at any point the export reports the failure, and what was written is a prefix of the full text, so every complete line is still a correct statement of the store.",
 ["fault_sequences","crash_points","inputs"],
 "every content, every position at which the sink fails or tears",
 "No existing test formats a store or a blank node statement, nor uses a failing sink.",
 ["src/display.rs","src/quad.rs","src/triple.rs","src/term/local/mod.rs","src/literal/mod.rs","src/literal/ref.rs","src/literal/type/mod.rs","src/literal/type/ref.rs",BD,D,BG,G],
 [("RdfDisplay implementations, errors propagated with ?","src/display.rs"),("one line per element",BD)],None,["rdf_display of stores, statements and terms on a failing writer"])
p("C09","Generated blank node identifiers never repeat",
 "A numbered blank node generator never produces the same identifier twice, whichever interleaved tasks share it, whether it is used directly, by reference or through an interpretation, and also when it is recreated after a restart from its prefix and reported count. Each identifier is a valid blank node identifier carrying the generator's prefix, the count always equals the starting offset plus the identifiers issued, and an exhausted generator refuses to continue rather than repeating.",
 ["schedules","crash_points","histories","configurations"],
 "every interleaving of users, every crash/restart point, every offset including the largest",
 "No existing test uses the generator; wrap-around and restart need specific histories.",
 ["src/term/generator/blank.rs","src/term/generator/mod.rs","src/term/generator/interpretation.rs"],
 [("monotone counter","src/term/generator/blank.rs")],[("count","next number","src/term/generator/blank.rs")],["next_blank_id","next_local_term","count","new_resource"])
p("C10","Interpretations with generators stay consistent under failures",
 "An interpretation combined with a generator answers every lookup, insertion and reverse lookup exactly as the underlying interpretation does, and each fresh resource it creates consumes exactly one generated term and is interpreted as exactly that term. If the generator or the underlying interpretation fails during any request, that request has no other effect and later requests, from any interleaved task, work normally and remain fresh.",
 ["schedules","fault_sequences","histories"],
 "every interleaving of tasks using the interpretation and every point where the generator or interpretation fails",
 "Existing tests do not touch these wrappers; failures inside shared generators are never exercised.",
 ["src/interpretation/impl/with_generator.rs","src/interpretation/mod.rs","src/interpretation/fallible.rs","src/interpretation/impl/none.rs","src/term/generator/interpretation.rs","src/term/generator/mod.rs"],
 [("delegation to inner interpretation","src/interpretation/impl/with_generator.rs"),("borrow released on unwind","src/term/generator/interpretation.rs")],None,["iri/literal/term/blank_id/local_term/id","insert_*","*_of","new_resource"])
p("C11","Storage errors surface and are never mistaken for absence",
 "Through the error-aware access traits, a membership test on a failing store reports the store's error and never answers present or absent on the basis of a failed read, and when the store does answer, the result is its true content. A store that cannot fail shows, through the error-aware traits, exactly the same elements, query results, resources and effects of insertions as through the plain ones.",
 ["fault_sequences","histories","schedules"],
 "every sequence of storage errors, transient or permanent, at every read, and every history",
 "No existing test implements a failing store.",
 ["src/dataset/fallible.rs","src/dataset/graph/fallible.rs","src/interpretation/fallible.rs","src/utils.rs"],
 [("transpose of the first result","src/dataset/fallible.rs"),("infallible adaptor","src/utils.rs")],None,["try_contains_triple","try_quads/try_triples","try_*_pattern_matching","try_insert","try_resources/try_new_resource"])
p("C12","Isomorphism verdicts are right for independently labelled replicas",
 "Two datasets are declared isomorphic exactly when some one-to-one renaming of blank nodes turns one into the other, with every IRI, literal, graph and ground statement preserved; a reported renaming is always such a witness, total on the blank nodes and invertible. The verdict does not depend on blank node labels, on insertion or traversal order, on the store kind, or on which dataset comes first.",
 ["schedules","histories","fault_sequences","inputs"],
 "every pair of replicas produced by any delivery schedule and labelling, with any lost or corrupted statements",
 "Existing tests compare a fixed corpus of files; most label/order/loss combinations and all ground-only differences are not in it.",
 ["src/dataset/isomorphism.rs"],[("signature candidates + backtracking","src/dataset/isomorphism.rs")],[("partial bijection","renaming under construction","src/dataset/isomorphism.rs")],
 ["are_isomorphic(_with)","find_bijection(_with)"])
p("C13","The triple pattern map answers with exactly the matching registrations",
 "Looking up a triple yields, once for each registered pattern the triple satisfies, the value registered under that pattern and nothing else, whatever the order and interleaving of registrations, whatever maps were merged beforehand, and whatever order the hash tables iterate in. Registering reports whether that pattern-value pair was new, and a registration interrupted by a failing resource or value leaves the map answering as before.",
 ["histories","schedules","fault_sequences","inputs"],
 "every history of registrations, merges and interrupted registrations, every hash order",
 "No existing test uses the map.",
 ["src/pattern/triple/map.rs","src/pattern/triple/canonical.rs"],[("nested hash maps keyed by given position","src/pattern/triple/map.rs"),("union_with","src/pattern/triple/map.rs")],None,["insert","get","union_with"])
p("C14","Equal content is indistinguishable whatever history produced it",
 "Two stores of the same kind holding the same elements compare equal, order as equal, hash identically, traverse in the same order and print and serialize identically, whatever different interleavings of insertions, removals, failed bulk loads, clones and conversions produced them. Stores with different content compare unequal and are ordered like their sorted element sequences.",
 ["histories","schedules"],
 "every pair of histories",
 "Existing tests never compare two stores built by different histories.",
 [D,G,BD,BG,"src/quad.rs","src/triple.rs"],[("comparison over ordered traversal",BD)],None,["==","cmp/partial_cmp","Hash","Debug","serialization","rdf_display"])
p("C15","A graph seen as a dataset is exactly its default graph",
 "Used through the dataset interface, a graph shows exactly its triples as default-graph quads, with the same resources, roles and counts and no named graph, at every point of any history. Pattern queries on it match a free or default graph position and never match a given or linked graph name, and several such views can be read in any interleaving with the same result.",
 ["histories","schedules","inputs"],
 "every history, every pattern including graph constraints, every interleaving of readers",
 "No existing test uses a graph through the dataset traits apart from isomorphism of fixed files.",
 [DM,GM,"src/utils.rs","src/pattern/quad/canonical.rs",G,BG],[("blanket implementations for graphs",DM),("projection of a quad pattern to triple pattern + graph constraint","src/pattern/quad/canonical.rs")],None,["quads/quads_count","quad_pattern_matching","resources/subjects/... via dataset traits","contains_*"])
p("C16","Binding a query position narrows the answers exactly",
 "At any step of a multi-step query, binding a position of a triple pattern to a value makes the pattern match exactly those triples it matched before that hold the value there, with positions required equal to the bound one thereby bound to the same value; rebinding a given position replaces only that value. The operation reports what the position held before, and later answers from the store, also after intervening writes, follow the narrowed pattern.",
 ["histories","schedules","inputs"],
 "every sequence of bindings with values discovered at run time, interleaved with writers",
 "No existing test rebinds a pattern; each combination of equality links and binding order is a different path.",
 ["src/pattern/triple/canonical.rs",G],[("per-shape substitution","src/pattern/triple/canonical.rs")],None,["set_subject/set_predicate/set_object","with_*","triple_pattern_matching"])
p("C17","Blank node identifier syntax is validated exactly",
 "A string is accepted as a blank node identifier exactly when it follows the documented grammar.",
 ["inputs"],"every string","Tests sample no strings.",["src/blankid.rs"],[("character check","src/blankid.rs")])
p("C18","Owned, borrowed and copy-on-write terms agree",
 "The owned, borrowed and copy-on-write forms of a term are equal, ordered and hashed alike and convert into each other without loss.",
 ["inputs"],"every term","Tests sample few terms.",["src/term/mod.rs","src/term/local/mod.rs","src/literal/mod.rs","src/literal/ref.rs","src/literal/cow.rs","src/id/mod.rs"],[("From/Borrow/Equivalent implementations","src/literal/ref.rs")])
p("C19","Term, triple and quad macros expand to the term they spell",
 "Every accepted macro invocation expands to exactly the statements it spells.",
 ["programs"],"every macro invocation","Tests sample a few invocations.",["src/macro.rs"],[("macro rules","src/macro.rs")])
p("C20","UUID-based generators produce valid unique terms",
 "UUID-based term generators produce syntactically valid terms, distinct for the random version.",
 ["inputs","configurations"],"every generator version","The feature is off in the build and tests.",["src/term/generator/uuid.rs"],[("uuid crate","src/term/generator/uuid.rs")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
