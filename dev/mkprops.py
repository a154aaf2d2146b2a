#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept here once, in step)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DOC = "pkg/document/document.go"
ALL = ["input", "schedule", "fault", "crash point", "history"]
P = []
def prop(id, title, statement, over, text, why, files, state, mech, observe, level_note):
    over = [{"input":"inputs","schedule":"schedules","fault":"fault_sequences","crash point":"crash_points","history":"histories"}.get(o, o) for o in over]
    P.append((id, dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)), level_note))

prop("C01", "Acknowledged documents are stored completely and come back unchanged",
 "Once an add request is acknowledged, every document of the batch can be looked up by its id and by every property its collection declares as an index, with exactly the properties it was sent with, for as long as it is not replaced and its collection is not deleted (the names id, hnswId, distance and vector are the service's own). A lookup never returns a document that does not have the value asked for, and never one that was not sent.",
 ["input", "history", "schedule"], "every collection schema, batch, property type and value, every sequence of adds, pauses, restarts and lookups, and every interleaving of the goroutines inside the service",
 "depends on the order in which batches, index updates and feed commits land across processes; the repository's tests need a live Swarm node and are not run, and any test samples one batch and one order",
 [DOC, "adapters/handlers", "pkg/hnsw/insert.go"],
 [("document store of a collection", "documents by id and by declared index", DOC), ("vector index of a collection", "nodes by number", "pkg/hnsw/insert.go")],
 [("AddDocuments", DOC), ("GetDocument", DOC), ("Flush", "pkg/hnsw/insert.go")], ["POST /v1/documents", "GET /v1/documents"],
 "histories of the real service checked against a reference model of collections, under random schedules, pauses and restarts")

prop("C02", "Acknowledged changes survive a crash at any point",
 "When the process dies at an arbitrary point and is started again on the same storage, everything acknowledged before - collections, their declared indexes, documents, search results and deletions - is there exactly as acknowledged. Requests cut off by the crash have taken effect or not, and the service starts and serves every later request.",
 ["crash point", "history", "schedule"], "a crash before or after any single storage or embedding call of any request, with any number of clients in flight, repeatedly",
 "a test stops the process at a place it chose; this must hold for a crash between any two storage operations",
 [DOC, "pkg/hnsw/insert.go", "pkg/hnsw/index.go", "adapters/handlers"],
 [("stored entry point, node count and top layer", "state of the index that a restart reads", "pkg/hnsw/insert.go"), ("feed updates not yet committed", "changes not yet durable", DOC)],
 [("commit of feeds after a batch", DOC), ("Flush", "pkg/hnsw/insert.go"), ("restore of entry point and count", "pkg/hnsw/insert.go")],
 ["all requests, before and after a restart"],
 "crash and restart at every kind of external call; only what reached the storage survives; all of the history is judged again after each restart")

prop("C03", "Search results are sound, ordered and within distance and limit",
 "Every document a nearest-documents search returns is a current document of that collection with its properties unchanged, appears once, and carries its true distance to the query. Results are in order of increasing distance, none lies beyond the requested distance, and there are no more than the requested limit.",
 ["input", "history", "schedule"], "every set of vectors and texts, every query vector, text, distance and limit, every order in which documents were added, and every interleaving",
 "the graph, its caches and the visited lists depend on insertion order, random layers and the interleaving of parallel node reads",
 [DOC, "pkg/hnsw/search.go", "pkg/hnsw/search_with_max_dist.go", "pkg/hnsw/index.go"],
 [("graph of the index", "nodes and links", "pkg/hnsw/vertex.go"), ("caches of nodes and vectors", "copies of stored state", "pkg/hnsw/vector_cache.go")],
 [("GetNearDocuments", DOC), ("knnSearchByVector", "pkg/hnsw/search.go"), ("KnnSearchByVectorMaxDist", "pkg/hnsw/search_with_max_dist.go")],
 ["POST /v1/nearest-documents", "POST /v1/nearest-documents-by-vector"],
 "every answered search compared with distances computed independently from the vectors that were sent")

prop("C04", "Search finds the nearest documents",
 "A search finds every acknowledged document within the requested distance (exactly at it included), nearest first up to the limit, in collections small enough for the index to be fully linked (up to 30 vectors). In larger collections (hundreds of documents) searches find at least 95 % of the true nearest documents on aggregate. This stays so however the documents were added - one by one, in batches, by several clients, with duplicate vectors, with restarts in between.",
 ["input", "history", "schedule"], "every set of vectors and order of insertion, random layer assignment, batch split, restart and interleaving",
 "links are pruned and layers drawn at random while the graph grows; a test fixes one data set and one growth order",
 ["pkg/hnsw/insert.go", "pkg/hnsw/neighbor_connections.go", "pkg/hnsw/heuristic.go", "pkg/hnsw/search.go", DOC],
 [("links of every node on every layer", "how the graph is reached", "pkg/hnsw/vertex.go"), ("entry point and top layer", "where searches begin", "pkg/hnsw/insert.go")],
 [("Add", "pkg/hnsw/insert.go"), ("findAndConnectNeighbors", "pkg/hnsw/neighbor_connections.go"), ("searchLayerByVector", "pkg/hnsw/search.go")],
 ["POST /v1/nearest-documents", "POST /v1/nearest-documents-by-vector"],
 "answers compared with brute force; exact up to 30 vectors, aggregate recall beyond")

prop("C05", "Concurrent clients see one consistent history",
 "For any number of clients issuing requests at the same time, every answer is one that some order of the requests, consistent with their real-time order, explains: nothing acknowledged is lost, half visible or doubled, and no request fails, blocks or crashes the service because of another.",
 ["schedule", "input"], "every interleaving of creates, deletes, adds, lookups, searches and listings of any number of clients, at the granularity of memory allocations, locks and channel operations",
 "needs particular interleavings of a few instructions; the race may show once in thousands of schedules",
 [DOC, "pkg/hnsw/index.go", "pkg/hnsw/insert.go", "pkg/hnsw/vector_cache.go"],
 [("open collections and their schemas", "shared maps of the service", DOC), ("index caches", "shared between requests", "pkg/hnsw/index.go")],
 [("lock of the document client", DOC), ("locks of the index", "pkg/hnsw/index.go")], ["all requests"],
 "seeded schedulers (random, priority with change points, FIFO) preempting at allocations, locks, channels; histories judged by real-time order")

prop("C06", "Collections are isolated from each other",
 "What is added to, replaced in or deleted from one collection never changes what lookups, searches and listings say about another one, whatever their names, schemas, documents, shared ids and vectors. This includes deleting and recreating a neighbour, restarts and crashes.",
 ["input", "history", "schedule", "crash point"], "every set of collections used together, by one or several clients, with the same ids and vectors in several of them",
 "needs several collections with overlapping content and an interleaved history; state shared by accident shows only for particular names and orders",
 [DOC, "pkg/hnsw/index.go"], [("stores named after the collection", "where a collection lives", DOC), ("open collections and their schemas", "keyed by name", DOC)],
 [("CreateCollection", DOC), ("DeleteCollection", DOC), ("opening of a collection", DOC)], ["all requests"],
 "several collections per run with shared ids; every answer judged against the model of its own collection only")

prop("C07", "A deleted collection is gone and comes back empty",
 "Once deleting a collection is acknowledged it is not listed, lookups and searches in it fail, and adding to it is refused, now and after a restart. Created again it is empty, with the newly declared indexes and no trace of the earlier documents, and it works like a new one.",
 ["history", "crash point", "schedule"], "every history of creates, adds, deletes and re-creations with other schemas, with restarts and crashes anywhere",
 "depends on every cache and store forgetting the collection, across restarts and repeated deletions",
 [DOC, "pkg/hnsw/index.go"], [("open collections and their schemas", "must forget the deleted one", DOC), ("stores named after the collection", "must be emptied", DOC)],
 [("DeleteCollection", DOC), ("CreateCollection", DOC)], ["DELETE /v1/collections/{name}", "all requests after it"],
 "delete/recreate histories with crashes; answers judged by the life times of the collection")

prop("C08", "A failed add does no damage",
 "When adding documents fails - a storage write fails, an embedding fails, or a document cannot be indexed - the request is reported as failed, and everything acknowledged before is still stored, found and unchanged, now and after a restart. A batch refused because of its content or because an embedding failed adds none of its documents, and later adds succeed.",
 ["fault", "input", "history"], "a failed storage write or embedding at any call of any add, single or repeated, with the write lost or having taken effect, and every kind of unindexable document at any place of a batch",
 "a test cannot make the n-th write of an add fail, for every n, and read everything back",
 [DOC, "pkg/hnsw/insert.go"], [("feed updates not yet committed", "leftovers of a failed add", DOC), ("nodes in the cache not yet stored", "leftovers of a failed add", "pkg/hnsw/insert.go")],
 [("AddDocuments", DOC), ("reset of the index after a failure", DOC)], ["POST /v1/documents, then everything"],
 "write errors (with and without effect) at any write of an add; all acknowledged state read back")

prop("C09", "Storage read faults never turn into wrong answers",
 "While reads from storage fail, every request is answered with an error or with a correct and complete answer: never with missing, truncated, outdated or made-up results. Once reads work again, answers are complete again without a restart.",
 ["fault", "history"], "a failed read at any call of any lookup, search or add, for any span of calls",
 "a test cannot make every single read of a search fail in turn and compare with the truth",
 ["pkg/hnsw/index.go", "pkg/hnsw/search.go", "pkg/hnsw/insert.go", DOC],
 [("nodes read on demand", "a node that cannot be read is not a missing node", "pkg/hnsw/index.go")],
 [("loadNode", "pkg/hnsw/index.go"), ("GetNearDocuments", DOC)], ["searches, lookups and adds while reads fail"],
 "read errors and delays at any read; answers compared with brute force")

prop("C10", "Embedding failures are reported and store nothing",
 "When the vectorizer fails in any way - refuses, hangs, answers with an error status, with something that is not a vector, or with an empty or cut-off answer - the add or text search that needed it reports an error, no document of that add becomes visible, and everything else is served as before.",
 ["fault", "input", "history"], "every failure mode of the embedding service at any call, for adds and text searches, with and without documents that bring their own vectors",
 "the failure can hit any document of a batch and take forms a mock does not have",
 ["pkg/vectorizer/rest/vectorizer.go", DOC], [("answer of the embedding service", "must be a vector", "pkg/vectorizer/rest/vectorizer.go")],
 [("Corpi", "pkg/vectorizer/rest/vectorizer.go"), ("AddDocuments", DOC), ("GetNearDocuments", DOC)], ["POST /v1/documents", "POST /v1/nearest-documents"],
 "fourteen failure modes injected at the HTTP transport")

prop("C11", "Every request is answered and the service recovers",
 "Every request - valid, invalid or malformed, in any state and under any fault - is answered with success or an error status within bounded time, never with a crash, a hang or a success for an invalid request. Once faults stop, valid requests succeed.",
 ["input", "fault", "schedule"], "arbitrary request bodies and parameters, any storage or embedding error or delay, any concurrency",
 "progress must hold for every schedule and fault; a test only sees the ones it runs",
 ["adapters/handlers", DOC, "pkg/hnsw/index.go", "pkg/hnsw/insert.go"],
 [("locks of the document client and the index", "must be released on every path", DOC)],
 [("request handlers", "adapters/handlers")], ["all requests"],
 "malformed and valid requests under stalls and errors; bounded simulated time, deadlock and step-limit detection")

prop("C12", "The listing is exactly the existing collections",
 "Listing collections returns every existing collection once, with exactly its declared indexes and their types, and no other, consistently with creates and deletes around it and across crashes and restarts. Creating a collection that exists changes nothing. A create or delete that fails because the storage does is reported as failed and changes no other collection.",
 ["history", "schedule", "crash point", "fault"], "every history of creates, deletes and listings by any number of clients, crashed anywhere or with any storage call failing",
 "needs interleaved creates and deletes and restarts to tell a stale listing from a true one",
 [DOC, "adapters/handlers"], [("document and key-value stores of the pod", "what exists", DOC)],
 [("CreateCollection", DOC), ("GetCollections", DOC)], ["GET /v1/collections"],
 "listings judged against the possible life times of every collection")

prop("C16", "Adding a document again replaces it",
 "Adding a document with an id that exists replaces it: from the acknowledgement on, lookups by id and by every index and all searches see the new properties and the new vector only, exactly once, and never the replaced version, also after restarts and crashes. A replacement that is refused (one without a vector for a document that has one) leaves the document as it was, and with it every other document of the request.",
 ["input", "history", "crash point", "schedule"], "every sequence of adds of the same ids, within a batch, across batches and clients, with changed vectors, properties and restarts between",
 "the old version lives on in the graph and in indexes and must stay invisible for every later query",
 [DOC, "pkg/hnsw/insert.go"], [("number of the current node of a document", "tells current from replaced", DOC)],
 [("AddDocuments", DOC), ("GetDocument", DOC), ("GetNearDocuments", DOC)], ["POST /v1/documents, then lookups and searches"],
 "upsert histories with crashes; answers must be the current version")

EXTRA = H + "/dev/props_extra.py"
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

with open(H + "/properties.jsonl", "w") as f:
    for _, p, _ in P:
        f.write(json.dumps(p) + "\n")
NA = json.load(open(H + "/dev/not_applicable.json"))
with open(H + "/properties.jsonl", "a") as f:
    for x in NA:
        f.write(json.dumps(x["spec"]) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh",
  hooks=dict(guard="faketime", enable="the checks build /repo with go build -overlay (harness, simulated runtime and storage seam come from /verif) and -tags faketime; no hook is needed in /repo itself", source_commits=[]),
  checks=[dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
               evidence_file="evidence/%s.json" % i, technique="deterministic simulation with fault injection: seeded search over schedules and fault sequences of the whole service, history checked against a reference model",
               level="exploration", level_note=n) for i, p, n in P],
  not_applicable=[dict(property=x["spec"]["id"], reason=x["reason"]) for x in NA],
  notes="See DESIGN.md. Known findings: known-findings.json. Replays: python3 check.py replay FILE trace.")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
