#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
DB="internal/database/database.go"; SN="internal/database/snapshot.go"; IX="internal/index/index.go"
TY="internal/index/typed.go"; SC="internal/index/scan.go"; CM="internal/index/compare.go"; SY="internal/sys/sys.go"
SH="internal/structs/shredder/shredder.go"; FD="internal/structs/shredder/field.go"; AS="internal/structs/assemblers/assemblers.go"
MO="internal/structs/models/models.go"; SM="internal/structs/schemas/schemas.go"; PK="pkg/database/impl.go"; PD="pkg/database/database.go"
HP="internal/database/helpers.go"; IT="internal/iterator/iterator.go"; TT="internal/types/txn.go"

prop("C01","An accepted write has exactly the effect its claims describe",
 "After every accepted write the set of datums is the previous set with the request's claims applied in order: asserted datums are present, a cardinality-one value is replaced, cardinality-many values accumulate as a set, retracted datums are gone, and every other datum is untouched. Each datum carries the id of the transaction that introduced it; asserting a datum that is already present (including an instant that denotes the same millisecond) leaves it, with its original transaction, in place.",
 ["histories","inputs"],"Every history of requests, of any number and mix of assertions, retractions and declarations, on attributes of every type, cardinality and uniqueness.",
 "Tests perform one or two writes on one string/int schema and look at one or two datums; the guarantee is about the whole datum set after arbitrary histories.",
 [DB,IX,TY],[("claim application on cloned indexes","%s Write, apply loop"%DB),("insert retains the extant datum","%s Insert"%TY)],
 [("eav/aev/ave","the three sorted datum sets that must stay in step",DB)],["Response.Snapshot","Database.Read"])
prop("C02","A rejected write changes nothing",
 "A write whose request is rejected, for whatever reason and at whichever claim or retraction the problem is found, reports an error with no transaction id and no tempid resolutions, and carries a snapshot of the state which rejected it. The database behaves afterwards as though the request had never been made: same datums, same ident and attribute resolutions, same outcome for every later request.",
 ["histories","inputs","fault_sequences"],"Every reachable state, every request that contains an invalid claim or retraction of any kind at any position among valid ones.",
 "The one existing test rejects one single-claim request; it never mixes valid claims with the invalid one, nor looks at idents, declarations or later id resolution.",
 [DB],[("indexes are cloned, mutated and swapped only when no error occurred","%s Write"%DB),("id counter and tempids are reset on error","%s Write"%DB)],
 [("nextID, idents, attr caches","must not move on rejection",DB)],["Response","Database.Read"])
prop("C03","Snapshots never change",
 "A snapshot, whether read from the database or returned by an accepted or rejected write, gives the same answer to every query and resolution forever, whatever is written afterwards. That includes a query result that is consumed partly before and partly after later writes.",
 ["histories","schedules"],"Every history of writes (incl. ones declaring attributes and idents), every point at which a snapshot is taken, every query asked of it later, every position at which an iteration is suspended across a write.",
 "One test checks one value before and after one write; sharing of copy-on-write trees or maps between snapshots shows only for particular later writes.",
 [DB,SN,IX,TY],[("copy-on-write clones of the trees, copies of the maps","%s read"%DB)],
 [("snapshot idents/attrs/indexes","must be private to the snapshot",SN)],["Snapshot.Select","Snapshot.Has","Snapshot.Count","Snapshot.ResolveIdent","Snapshot.ResolveAttrIdent"])
prop("C04","Select, Count and Has return exactly the matching datums",
 "For every claim pattern, with any combination of entity, attribute and value given or left empty and each given in any of its reference forms, selecting yields exactly the datums of the snapshot that match every given field, counting yields their number, and the existence test agrees. A field that is given but resolves to nothing, or a value of a type the attribute cannot hold, matches no datum; no query fails or panics.",
 ["inputs","histories"],"Every claim pattern over every reachable snapshot.",
 "Tests cover one literal per query shape on one two-datum entity; none uses unresolvable references, values of the wrong type, negative floats or ids that are not attributes.",
 [SN,IX,TY],[("access path choice and value filter","%s access, selectWith"%SN),("claim resolution","%s resolveClaim"%SN)],
 [],["Snapshot.Select","Snapshot.Count","Snapshot.Has"])
prop("C05","A unique value is asserted by at most one entity",
 "For an attribute with either uniqueness, no snapshot ever holds the same value on two entities, whether the competing assertions come in one request or several and however the entities are referred to (id, ident, lookup, tempid). A request that would break this is rejected; one that does not, such as re-asserting a value on the entity (given by reference) that already holds it or taking a value since released, is accepted, and a lookup by unique value always finds the current holder and only it.",
 ["histories","inputs"],"Every history over attributes of every type and both uniquenesses and cardinalities.",
 "Tests try one collision of one string value from a tempid, in a second request; never collisions within one request, through ids, after replacement or retraction, or on other types.",
 [DB,IX],[("uniqueness check against the attribute-value index","%s Write"%DB),("index maintenance on replace and retract","%s Write"%DB)],
 [("ave","holder of each unique value",DB)],["Response.Error","Snapshot.Select"])
prop("C06","Tempids resolve consistently, to the identity holder or to a new id",
 "Within a request all uses of a tempid, as entity or as value, denote one entity, and the response maps the tempid to it. That entity is the one that already holds an identity-unique value the tempid claims, if any, and otherwise a new one whose id has never been issued before to an entity or transaction; different tempids denote different entities unless they claim the same identity-unique value, and a tempid that would have to be two existing entities causes rejection.",
 ["inputs","histories"],"Every request using tempids in any positions and order, on every reachable state.",
 "Tests use one tempid with one identity claim first in the list; not several identities, tempids in value position, later-listed identity claims, or two tempids for one entity.",
 [DB],[("tempid allocation","%s evaluateClaim"%DB),("identity rewrites","%s Write"%DB)],
 [("nextID","never goes back over an issued id",DB)],["Response.TempIDs","Response.ID"])
prop("C07","A cardinality-one attribute holds at most one value per entity",
 "No snapshot ever holds two values of a cardinality-one attribute for an entity, for values of every type including negative, zero and extreme ones. A request that itself asserts two different values of such an attribute for one entity is rejected, also when the entity is named in two different ways; cardinality-many attributes hold each asserted value once.",
 ["histories","inputs"],"Every history of assertions and retractions over attributes of all six types, both cardinalities, all pairs of old and new value.",
 "One test replaces one positive int; float, negative, instant, bool and ref values take different code paths.",
 [DB,IX],[("replacement of the extant value","%s Write"%DB),("first datum for entity and attribute","%s First"%IX)],
 [],["Snapshot.Select","Snapshot.Count"])
prop("C08","Attribute definitions are complete and immutable",
 "Every attribute has an ident and a valid type, and a valid cardinality and uniqueness if it has any, in every snapshot. Once declared, none of these can be changed or retracted by any request, in whatever form it names the attribute; declaring the same attribute again is accepted, changes nothing and resolves to the same entity, and from the moment of declaration the database enforces exactly what was declared.",
 ["histories","inputs"],"Every history of declarations, redeclarations, conflicting declarations and retractions, by id, ident, lookup reference or tempid.",
 "Tests try one type change and one type retraction by id; redeclaring is only checked for the absence of an error.",
 [DB,HP,SY],[("system invariant switch","%s Write"%DB),("attribute completeness check","%s Write"%DB)],
 [("attrsByID, attrTypes, attrUniques, attrCardManies","caches of the declared attributes",DB)],["Snapshot.ResolveIdent","Snapshot.ResolveAttrIdent","Snapshot.Select"])
prop("C09","Ident resolution mirrors the recorded idents",
 "In every snapshot an ident resolves to an entity exactly when that entity currently has that ident recorded, after any history of assigning, renaming, re-asserting and retracting idents, and an attribute's id resolves to its ident. Requests and queries that use an ident act on the entity that currently has it.",
 ["histories","inputs"],"Every history over a few entities and idents.",
 "No test renames, re-asserts by tempid and then resolves, or retracts an ident.",
 [DB,SN],[("ident cache maintenance","%s Write"%DB)],
 [("idents","must equal the sys/db/ident datums",DB)],["Snapshot.ResolveIdent","Snapshot.ResolveAttrIdent"])
prop("C10","The system's own entities and idents cannot be altered",
 "No request, accepted or not, adds, changes or removes any datum of a system entity, or gives any entity an ident beginning with sys/. Requests that try are rejected whole, however the system entity is named and whether by claim or by entity retraction.",
 ["inputs","histories"],"Every request over all system entities, attributes and reference forms.",
 "One test asserts one sys/ ident on a new entity.",
 [DB,SY],[("ident validation","%s ValidUserIdent"%SY),("entity reference evaluation","%s evaluateClaim"%DB)],
 [],["Snapshot.Select","Response.Error"])
prop("C11","Values keep their type and come back as written",
 "A claim is accepted only if its value has the attribute's declared type (nil never does), and a value that was accepted is returned equal by every way of reading it, for the whole range of each type; instants are kept to the millisecond and returned in UTC. A value of another type is rejected in claims and finds nothing in lookups, without panicking.",
 ["inputs"],"Every attribute type against every value: extremes, zeroes, negatives, NaN and infinities, empty and non-ASCII strings, instants before the epoch, with zones and sub-millisecond parts.",
 "Tests use one ordinary value per type.",
 [SY,IX,DB,SN],[("value validation","%s ValidValue"%SY),("typed storage and conversion back","%s valuers"%IX)],
 [],["Response.Error","Snapshot.Select","Snapshot.Has"])
prop("C12","Entity retraction removes exactly the entity its constraints identify",
 "Retracting an entity removes all of its datums and nothing else; references to it and entities it refers to are left alone. The constraints must all resolve to one same entity, otherwise (none given, one unresolvable, or two that disagree) the whole request is rejected; several retractions, and retractions combined with claims, take effect together.",
 ["inputs","histories"],"Every combination of constraints in every reference form, several retractions per request, on every reachable state.",
 "Tests retract through one lookup reference per entity; none has several constraints, disagreeing ones or none.",
 [DB],[("constraint resolution and expansion into claims","%s Write"%DB)],
 [],["Response.Error","Snapshot.Select"])
prop("C13","Results are ordered, repeatable and may be abandoned at any point",
 "Selected datums come in ascending order of entity, attribute, value for unconstrained and by-entity queries and of entity then value for by-attribute queries. Iterating the same result again yields the same sequence, and stopping after any number of datums yields exactly that prefix and disturbs nothing, for single, merged and concatenated sequences alike.",
 ["inputs","schedules"],"Every query shape on every reachable snapshot, every stopping point, interleaved consumption of several results.",
 "Tests collect whole sequences of two or three datums and stop early once in a concatenation.",
 [SC,TY,IX,IT,SN],[("merge of the typed sub-sequences","%s mergeEAV"%SC),("sequence concatenation",IT)],
 [],["Snapshot.Select","index Select/All","iterator.Concat"])
prop("C14","Each index is a sorted set with independent clones",
 "Under every sequence of insertions, deletions and clonings, an index of any kind, node size and value type holds exactly the datums a set would, reports correctly whether a datum was already there, keeps the earliest transaction of a datum, and answers find, first, count and select by each prefix of its order in sorted order. A clone and its original never affect one another.",
 ["histories","inputs","configurations"],"Every operation sequence up to a depth, all four index orders, six value types, several node sizes and set sizes across node splits and merges.",
 "Tests insert at most six datums in fixed order with one node size that never splits.",
 [IX,TY,SC,CM],[("b-tree indexes per storage type",TY),("comparers",CM)],
 [],["index.Index"])
prop("C15","Concurrent writes and reads are atomic",
 "When several goroutines write and read at once, the outcome is that of some sequential order of the same operations that respects real time: no write is lost, split or applied to a stale state, every response's snapshot contains exactly the writes ordered up to it, and uniqueness and id allocation hold across them. Every operation completes.",
 ["schedules"],"All interleavings of two to four goroutines performing one to three operations each on colliding data, at the datum interface and at the struct interface.",
 "No test is concurrent.",
 [DB,PK],[("reader-writer lock around each operation","%s Read, Write"%DB)],
 [("lock","serialises writes",DB)],["Response","Database.Read"])
prop("C16","Concurrent use is free of data races and deadlock",
 "Databases may be opened from several goroutines at once, and a database, its snapshots and results read from them may be used so too, including reading older snapshots while new attributes are declared and building structs from snapshots, without any unsynchronised conflicting memory access and without deadlock.",
 ["schedules"],"All interleavings, at synchronisation operations, of small groups of goroutines mixing every public operation.",
 "No test is concurrent or run under the race detector.",
 [DB,SN,IX,MO,PK],[("reader-writer lock",DB),("immutability of published maps and trees","%s read"%DB)],
 [("attrTypes","consulted by every index of every snapshot",IX),("analyzer cache","shared by all snapshots of a database",MO)],["Database","Snapshot","TypedSnapshot"])
prop("C17","Structs of scalars survive recording and finding",
 "A struct whose fields are scalars or pointers to scalars of the supported types, with or without an id field, untagged fields and uniqueness or ignore-empty directives, once written and found again by its id is equal to what was written (instants to the millisecond; nil pointers stay nil, zero values stay zero). The entity can equally be found as any other struct type whose fields name the same attributes with pointers instead of values or the reverse, or only some of them.",
 ["inputs","programs"],"Every such struct type up to a number of fields, and every combination of values from a set with the extremes of each type.",
 "Two tests write one literal struct each; pointer, ignore-empty and mixed-type reads are not exercised end to end.",
 [SH,FD,AS,MO,PK,PD],[("shredding","%s assert"%SH),("assembly","%s assemble"%AS)],
 [],["Database.Write","TypedSnapshot.Find"])
prop("C18","Struct graphs survive recording and finding",
 "A graph of structs connected by struct, pointer, map and slice fields, including shared and cyclic pointers, nested values, maps keyed by a scalar attribute or by id, and slices of structs or scalars of any supported type, once written and found again is equal to what was written: the same shape, each struct once per identity, map entries under their keys and slices in their order.",
 ["inputs","programs"],"Every graph up to a few nodes over types exercising each kind of connection, including nesting of the kinds within one another.",
 "Tests shred and assemble separately, one literal per collection kind with string keys and float elements, and never nest a kind in another.",
 [SH,FD,AS,MO],[("pointer registry","%s assert"%SH),("deferred map and slice entries","%s addEntityToMap, addEntityToSlice"%AS)],
 [],["Database.Write","TypedSnapshot.Find"])
prop("C19","Struct types declare exactly the attributes their tags describe",
 "Writing a struct declares, for it and every struct type reachable from it, each tagged field's attribute once, with the type, cardinality and uniqueness the field implies, and nothing for untagged fields. Writing structs of the same or of other types that share attributes, in any order, never redefines or duplicates an attribute, and a struct type that cannot be modelled is rejected with an error, never a panic.",
 ["programs","inputs"],"Every struct type up to a few fields over all field kinds and directives, every pair of types sharing attributes, every order of writing them.",
 "Tests check the literal claims for a handful of types in isolation, never against a database that already has attributes.",
 [SM,MO,PK],[("schema analysis","%s Analyze"%SM),("tag parsing","%s parseAttrField"%MO)],
 [],["Database.Write","datums of the declared attributes"])
prop("C20","Recording a struct updates the entity it identifies",
 "A written struct is recorded on the entity given by its id field or, failing that, on the one holding its identity attribute's value, or else on a new one; the response lists the entities' ids in the order of the assertions, and attributes the struct does not mention are left untouched. A conflict (an id and an identity, or two identities, that denote different entities; a unique value held by another entity) is rejected, and retracting a struct by its id or unique values removes exactly that entity.",
 ["histories","inputs"],"Every history of struct assertions and retractions over a few entities with id, identity and unique fields.",
 "Tests write new structs and rename one by id; never by identity, never conflicting.",
 [PK,SH,DB],[("id and tempid list","%s Shred"%SH),("id collection","%s Write"%PK)],
 [],["Response.IDs","Response.Error","TypedSnapshot.Find"])
prop("C21","A struct write is all or nothing",
 "If any assertion or retraction of a struct request is rejected, no entity of the request is recorded or retracted, the response has an error, no ids and a snapshot of the state that rejected it, and later requests behave as if it had never been made.",
 ["histories","fault_sequences"],"Every struct request with one bad element (nil, non-struct, unmodellable, conflicting, unidentified) at every position among good ones, from every reachable state.",
 "No test rejects a struct request.",
 [PK,PD,SH],[("single data write after schema writes","%s Write"%PK)],
 [],["Response","Database.Read"])
prop("C22","Outcomes do not depend on map iteration order",
 "The same sequence of operations has the same outcome, up to the choice of new ids, whatever order the language runtime iterates over maps in: the same requests are accepted, the same datums recorded, the same structs found.",
 ["schedules","inputs"],"Every order of every map iteration performed by the system for a set of requests, struct types, graphs and finds chosen to reach each of them with several entries.",
 "A test run samples one random order; the existing map test accepts two outcomes by hand.",
 [DB,SM,FD,AS],[("iterations over retraction constraints, retracted ids, attribute changes, pending types, pending entities, map fields","%s, %s, %s, %s"%(DB,SM,FD,AS))],
 [],["all public operations"])
prop("C23","The database and its callers do not share mutable memory",
 "Writing does not modify the request, its slices (including spare capacity) or the structs it refers to; changing them afterwards, or changing a struct, slice, map or pointer obtained from a snapshot or a response, does not change the database, any snapshot or any other result.",
 ["histories","inputs"],"Every kind of request and result, with every reachable mutable part overwritten after the fact.",
 "No test changes its inputs or results afterwards.",
 [DB,SH,AS,PK],[("claims slice handling","%s Write"%DB),("copies of values into fresh variables","%s assemble"%AS)],
 [],["Request","Response","TypedSnapshot.Find"])
prop("C24","Databases are independent of one another and of their sizes",
 "What a database answers depends on nothing but the requests it was given: other databases in the same process, opened, written and read before, in between or at once, and the configured sizes (index degree of 2 and more, expected numbers of attributes and idents) change no answer, and every new database starts with the same system datums and nothing else.",
 ["histories","schedules","inputs"],"Every interleaving of the histories of two or three databases with conflicting schemas, opened at every moment, with every configuration; every schedule of threads with a database each.",
 "Each test opens one database and discards it; the sizes are never varied.",
 [DB,PK,SM,MO],[("copies of the system's attributes and idents","%s NewIndexDatabase"%DB),("schema cache","%s NewDatabase"%PK)],
 [],["all public operations"])
prop("C25","Every call answers",
 "Whatever it is given (any value to assert or retract, any claim, retraction or query, any id, issued or not, to find as any struct type) the API accepts it, rejects it with an error, or answers with what matches: finding an id of which nothing is recorded, zero included, gives nil. No call panics or fails to return, and the database afterwards accepts and answers what it should.",
 ["inputs","programs"],"Every value of a pool covering each kind of type (nil, typed nil, scalars, composites, unmodellable structs), every claim over pools of references and values of every kind including pointers and zero values, every struct recorded as each type and sought as each other.",
 "Tests give well-formed input, and find what was written as the type it was written as.",
 [PK,PD,SH,AS,MO,DB,SN],[("kind checks","%s Shred, Retract"%SH),("fit of values and fields","%s assemble, findScalar"%AS),("defaults of type switches","%s evaluateClaim"%DB)],
 [],["all public operations"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,p["title"]
        f.write(json.dumps(p)+"\n")
