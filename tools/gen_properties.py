#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays easy to edit)."""
import json, os
V, J, K, A, S, U, L = ("src/verify.cc", "src/jwt.cc", "src/jwks.cc", "src/check_audience.cc",
                       "src/status.cc", "src/struct_utils.cc", "simple_lru_cache/simple_lru_cache_inl.h")
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

p("C01", "A token verifies only under a usable key and the algorithm it declares",
  "Verification succeeds only if some key of the key set that the token may use (its key id, where both sides state one, is the token's; its declared algorithm, where stated, is the token's; its type and curve are the ones the token's declared algorithm is defined for) validates the token's signature, under exactly that algorithm, over exactly the token's own encoded header and payload. A signature made with any other key, hash, padding, curve or algorithm family is never accepted.",
  ["inputs", "configurations"], "for every token (declared algorithm x key id x real signer x real signing algorithm) and every key set (any mix, number and order of keys, with or without declared kid/alg/crv)",
  "The tests pair about a dozen fixed tokens with the key sets they were made for; they never cross algorithms, key types, curves and undeclared attributes, and no finite list of pairs settles 'no other combination is accepted'.",
  [V, K], [("key selection by kid and alg", V+":verifyJwtWithoutTimeChecking"), ("per-type signature check", V+":verifySignature*")],
  ["Status returned by verifyJwtWithoutTimeChecking / verifyJwt"])
p("C02", "A genuine token verifies whatever else the key set holds, in any order",
  "If the key set contains a key the token may use and that key really signed the token under the declared algorithm, verification succeeds, no matter which other keys the set holds or in which order they come.",
  ["inputs", "configurations"], "for every genuine token and every key set that contains its key, at every position, among every mix of other keys",
  "The tests verify against sets in which at most one other key of the same type precedes the right one; sets mixing key types, and all orders, are never tried.",
  [V], [("key loop goes on after a key that does not validate", V+":verifyJwtWithoutTimeChecking")], ["Status returned by verifyJwtWithoutTimeChecking"])
p("C03", "A failed verification says whether any key was usable",
  "A rejected token is reported as a key id/algorithm mismatch exactly if no key of the set is compatible with the key id and the algorithm of the token (a key that states no key id or no algorithm is compatible with any, as is a token without key id with any key id), and otherwise as a signature failure; the wrong-length Ed25519 signature report is made only for a token that declares EdDSA, whose signature is not 64 bytes long and for which the set holds a compatible Ed25519 key.",
  ["inputs", "configurations"], "for every rejected (token, key set) pair",
  "Tests look at a few rejections each with one fixed reason; the reason depends on the whole combination of kids, algs and key types.",
  [V], [("kid/alg match flag and Ed25519 length check", V+":verifyJwtWithoutTimeChecking")], ["Status returned by verifyJwtWithoutTimeChecking"])
p("C04", "Every change to a signed token is detected",
  "If a genuine token is changed in any way that alters the header text, the payload text or the signature bytes (bits flipped, bytes added, removed, moved or zero-padded, parts exchanged with another token), it no longer verifies under any of the supported algorithms. For signatures this includes any length other than the one the algorithm prescribes.",
  ["inputs"], "for every supported algorithm and every mutation in the bounded mutation space of a genuine token",
  "The tests flip bits of and truncate a few signatures; they never lengthen one, pad its halves, or change the signed text, and not for every algorithm.",
  [V, J], [("signing input rebuilt from the encoded sections", V+":verifyJwtWithoutTimeChecking"), ("signature length/structure checks", V+":verifySignatureEC, verifySignatureOct, verifySignatureEd25519")],
  ["Status returned by verifyJwtWithoutTimeChecking"])
p("C05", "Time constraints hold for every clock, skew, not-before and expiry value",
  "With true (unbounded) integer arithmetic: a token is reported not yet valid exactly when the time plus the allowed skew is before its not-before time, and otherwise expired exactly when it carries an expiration and the time is after the expiration plus the skew; in every other case the time check passes. The default skew is 60 seconds.",
  ["inputs"], "for every (now, skew, nbf, exp) in the 64-bit range, nbf and exp present or absent",
  "The tests use one nbf/exp pair and eight clock values, all far from the arithmetic limits, and two skews.",
  [J, U], [("verifyTimeConstraint", J+":Jwt::verifyTimeConstraint"), ("numeric claim range check", U+":GetUInt64")], ["Status of Jwt::verifyTimeConstraint and of verifyJwt"])
p("C06", "Audience matching is exact up to one scheme prefix and one trailing slash",
  "With a non-empty list of allowed audiences, a token's audiences are accepted exactly if one of them equals one of the allowed ones, case-sensitively, after one leading http:// or https:// and one trailing slash are removed from both; a token without audiences is then rejected. With an empty list every token's audiences are accepted.",
  ["inputs", "configurations"], "for every pair of audience lists",
  "The tests try some ten hand-picked pairs; prefixes without a name, repeated schemes or slashes, case, order and duplicates in lists are not covered.",
  [A, V], [("sanitizeAudience, set lookup", A+":sanitizeAudience, CheckAudience")], ["CheckAudience::areAudiencesAllowed, CheckAudience::empty, Status of verifyJwt with audiences"])
p("C07", "Each verify entry point enforces all of its checks, against the right clock",
  "An entry point that takes audiences, a time or neither accepts a token exactly if every check it promises passes (audience where a list is given, not-before and expiry against the given time, or else against the wall clock at the moment of the call, and always the signature), and a rejection states the reason of a check that really failed.",
  ["inputs", "histories"], "for every combination of audience, time and signature outcome, every entry point, and every history of wall-clock values",
  "The tests of the overloads use one failing condition at a time and never move the wall clock.",
  [V, J], [("overload composition", V+":verifyJwt")], ["Status of the five verifyJwt entry points"])
p("C08", "Parsing accepts exactly well-formed tokens and reports their fields faithfully",
  "A text parses as a token exactly if it consists of three non-empty base64url sections separated by exactly two dots, the first a JSON object with a string alg naming one of the thirteen supported algorithms and a string kid if any, the second a JSON object in which iss, sub, jti are strings, aud a string or list of strings, and iat, nbf, exp numbers from 0 up to the 64-bit range, where present. Every field of the parsed token then has precisely the value the text gives it, or its default where the text has none.",
  ["inputs"], "for every combination of section structure, algorithm, claim presence and claim value in the bounded grammar",
  "The tests give one example for each failure; combinations of claims, values at the edges and stray separators are not tried.",
  [J, U], [("section split, base64url, JSON, typed claim getters", J+":Jwt::parseFromString"), ("typed getters", U)], ["Status and public fields of Jwt after parseFromString"])
p("C09", "A parse failure names a fault the text really has",
  "When a text is rejected as a token, the reported status names a fault that is present in that text (bad structure, bad base64 of that section, bad JSON of that section, wrong type or range of that very field), and the text is never reported as faulty in a part that is well-formed.",
  ["inputs"], "for every rejected text in the bounded grammar, with one, two or three simultaneous faults",
  "The tests assert one status for one text with one fault each.",
  [J], [("error returns of the parser", J+":Jwt::parseFromString")], ["Status of Jwt::parseFromString"])
p("C10", "A token object depends only on the last text it was given",
  "After any sequence of parses (successful or failed), copies, assignments and self-assignments, a token object is indistinguishable from a fresh object that parsed only the last text; nothing of an earlier token (claims, audiences, key id, signature) survives, and copying never changes the source.",
  ["histories"], "for every sequence of parse/copy/assign operations on two objects up to the depth bound",
  "Tests parse each object once and copy it once; no test reuses an object, so leftovers of an earlier token are never seen.",
  [J], [("parseFromString, copy construction, assignment", J)], ["all public fields of Jwt, Status, verification result"],
  [dict(name="Jwt public fields", meaning="parsed token", where="jwt_verify_lib/jwt.h")])
p("C11", "A JWKS yields exactly its valid keys, in order, with the attributes they state",
  "Loading a JSON key set keeps exactly those entries that are valid keys of a supported type (EC P-256/384/521, RSA, oct, Ed25519, with a declared algorithm that fits the type and curve), in document order, each with the key id, algorithm, type, curve and key material the entry states, and skips the rest without letting them influence the others.",
  ["inputs"], "for every key entry in the bounded grammar and every list of up to three entries",
  "The tests load fixed documents with one fault each; interaction of valid and invalid entries and of attributes within an entry is sampled only.",
  [K], [("entry extraction per key type", K+":extractJwk*"), ("skip-invalid loop", K+":createFromJwksCore")], ["Jwks::keys(), Jwks::getStatus()"])
p("C12", "A key set is either usable or empty, and says why it is empty",
  "After loading key material of any kind, the reported status is success exactly if the set holds at least one key, and every key in it is complete for its type; if loading fails the set holds no key, the status names a fault the input really has, and nothing verifies against it.",
  ["inputs"], "for every document in the bounded JWKS/X.509/PEM grammars, including several simultaneous faults",
  "Tests assert the status of single-fault documents and hardly ever look at the keys left behind by a failed load.",
  [K, "jwt_verify_lib/status.h"], [("status bookkeeping", K+":createFromJwksCore, createFromX509; status.h:WithStatus")], ["Jwks::getStatus(), Jwks::keys(), verification results"])
p("C13", "PEM keys load all-or-nothing and accumulate without disturbing the set",
  "Loading a PEM public key yields exactly that key with the given key id and algorithm, or an error and nothing; adding PEM keys one after the other to any set appends exactly the keys whose loading succeeded, in order, and a failed addition leaves the set, its status and its verification behaviour unchanged.",
  ["histories", "inputs"], "for every sequence of load and add operations up to the depth bound over supported, unsupported and malformed PEM keys",
  "Tests add one key to one set once; sequences with failures in between, and mixes of key types, are not tried.",
  [K], [("addKeyFromPem, createFromPem, createFromPemCore", K)], ["Jwks::keys(), returned Status, verification results"])
p("C14", "X.509 key maps load all-or-nothing, independent of map order",
  "A JSON object without a keys member is treated as a certificate map exactly if it is non-empty and every member is a PEM certificate string under a non-empty name; it then loads to one RSA key per member, with the member name as key id, if every certificate is good, and to an error and no keys otherwise, whatever the order of the members.",
  ["inputs"], "for every certificate map of up to three members over good RSA, EC, corrupt, truncated, non-string and unnamed members, in every order",
  "Tests load good maps and three bad ones; a map mixing good and bad certificates is not examined for leftover keys.",
  [K], [("shouldCheckX509, createFromX509", K)], ["Jwks::keys(), Jwks::getStatus()"])
p("C15", "Running out of memory in the crypto library fails closed",
  "If any memory allocation of the crypto library fails while keys are loaded or a token is verified, the operation reports failure or its correct result: it never crashes, never accepts a token that is not genuine, never yields a wrong or partial key, and the objects involved work correctly once memory is available again.",
  ["fault_sequences"], "for every allocation point of every load and verify scenario (single failures and failures from that point on)",
  "Tests never inject a failure; several of the error statuses exist only for this case and are never produced.",
  [V, K], [("null checks after each crypto allocation", V+", "+K)], ["Status, Jwks::keys(), absence of crash"])
p("C16", "Concurrent verification and parsing behave as if run alone",
  "Threads that verify tokens against a shared key set, load keys, check audiences and parse tokens at the same time each get the result they would get alone, under every interleaving, without a data race on anything the library owns.",
  ["schedules"], "for every interleaving of two or three threads at the library's shared memory accesses",
  "No test uses more than one thread, and a scheduler left to itself visits a handful of interleavings.",
  [V, J, K, A], [("const access to shared objects; no mutable shared state", V), ("one-time initialised algorithm table", J+":isImplemented")], ["Status per thread, conflicting unordered accesses"])
p("C17", "No operation leaves entries in the crypto error queue",
  "Whatever key material is loaded and whatever token is verified, with whatever outcome, the calling thread's crypto error queue is empty afterwards if it was empty before, so that later TLS or crypto calls on that thread are not misreported.",
  ["inputs", "configurations"], "for every load and verify scenario of the bounded spaces",
  "Tests never look at the error queue.",
  [V, K], [("error queue cleared on failure paths", V+", "+K)], ["the crypto library's error queue"])
p("C18", "Verification depends on nothing but its arguments",
  "The verdict on a token and a key set does not depend on what was loaded, parsed, verified, added or destroyed before, and verification changes neither the token nor the key set.",
  ["histories"], "for every sequence of load, add, destroy, parse and verify operations up to the depth bound on a small pool of objects",
  "Each test verifies against freshly made objects; sequences in which a remembered result could go stale are not exercised.",
  [V, K, J], [("stateless verification", V)], ["Status; fields of the arguments before and after"])
p("C19", "No input makes the library crash or read out of bounds",
  "For every text given as token, JSON key set, certificate map, PEM key, audience or claim name, every operation terminates without a crash, failed assertion, undefined behaviour or memory error, and its outcome is one of the documented statuses.",
  ["inputs"], "for all short strings over structural alphabets and all single-edit neighbours of valid documents",
  "Tests use about 150 fixed documents; the fuzz target is not part of the test run.",
  [J, K, V, A, U, S], [("bounds and type checks throughout", J+", "+K+", "+V)], ["termination, sanitizer reports, Status"])
p("C20", "Repeated use does not leak memory",
  "Once all objects made by an operation are destroyed, all memory the operation took (the crypto library's included) has been given back, on success and on every failure path.",
  ["inputs", "fault_sequences"], "for every load, parse and verify scenario, and for every injected crypto allocation failure",
  "Tests do not measure memory and do not reach most failure paths.",
  [V, K], [("owning pointers", V+", "+K)], ["live allocations before and after"])
p("C21", "Claim lookup returns the value at exactly the given path, with its type checked",
  "Looking up a dotted name in a JSON object finds a value exactly if each component but the last names an object in the one before, reports a wrong type if a component on the way is not an object or the value has not the requested type, reports missing otherwise, and on success returns exactly the stored value. Numbers are returned as unsigned integers only from 0 up to, not including, two to the 64th, decimals dropped.",
  ["inputs"], "for every object up to depth three over two names and every kind of value, every dotted name up to three components, and every getter",
  "Tests look up a handful of nested names in one document.",
  [U], [("GetValue path walk, typed getters", U)], ["FindResult and output value of each StructUtils getter"])
p("C22", "Every status has its own description",
  "Every status value has a non-empty description that differs from that of every other status and speaks about that condition; the description does not depend on earlier calls, and values outside the enumeration are described by the empty text.",
  ["inputs"], "for all status values",
  "Tests print descriptions but compare only one or two of them.",
  [S], [("getStatusString", S)], ["getStatusString"])
LW = "Tests run fixed operation scripts with one pin or one removal at a time; interleavings of pins, replacements, removals, evictions and releases are not enumerated."
LST = [dict(name="table_, defer_, LRU list, unit counters", meaning="cache representation", where=L)]
p("C30", "The cache returns exactly what was stored and not yet removed",
  "At every point of every history, a lookup returns the value most recently inserted under that key unless it was removed, evicted or expired since, in which case it returns nothing; iteration yields exactly the pairs lookups would find, and the in-use query is true exactly for values that are stored or still pinned.",
  ["histories"], "for every sequence of cache operations up to the depth bound over colliding keys, pins and sizes",
  LW, [L], [("table_/defer_ maintenance", L)], ["lookup, begin/end, entries, stillInUse"], LST)
p("C31", "A cached value is destroyed exactly once and never while pinned",
  "A value handed to the cache is destroyed exactly once, never while a caller holds a pin on it, and without delay once it is neither stored nor pinned; clearing the cache destroys everything that is left, and the cache never touches a value, or a key that lives in it, after its destruction.",
  ["histories"], "for every sequence of cache operations up to the depth bound, including several pinned generations of one key",
  LW, [L], [("pin counts, deferred list", L+":release, remove, discard")], ["removeElement calls, deleter calls, use after destruction"], LST)
p("C32", "The cache's size accounting is exact",
  "At every point the total, pinned and deferred sizes and the numbers of stored and deferred entries equal the sums over the values actually held, also after entries are resized, replaced, removed while pinned, expired or evicted, and the debug listing names every value held with its pins.",
  ["histories"], "for every sequence of cache operations up to the depth bound",
  LW, [L], [("units_, pinned_units_ updates", L)], ["size, pinnedSize, deferredSize, entries, deferredEntries, summary"], LST)
p("C33", "The cache evicts in order, only what it must, and never stays needlessly full",
  "When the stored units exceed the capacity (or a subclass's own criterion says the cache is overfull), unpinned entries are evicted from the least recently released (or, in age mode, the first inserted) onwards and only until the capacity is met; after any operation that can evict, the cache exceeds its capacity only by entries that are pinned, and an entry released while the cache is overfull is dropped.",
  ["histories"], "for every sequence of cache operations up to the depth bound, in LRU and age mode, over sizes and capacities that force eviction",
  LW, [L], [("garbageCollect, LRU list order, release when overfull", L)], ["removeElement calls and their order, lookup"], LST)
p("C34", "Entries expire exactly when idle or old for longer than allowed",
  "With an idle limit an unpinned entry is gone at the first lookup, or explicit expiry, after it has been unused for longer than the limit, and never before; with an age limit the same holds for the time since insertion, pinned entries then leaving the cache while staying valid for their holders. Without a limit nothing expires. The times the cache reports (of last use or insertion, and the age of the entry next to go) are exact.",
  ["histories"], "for every sequence of cache operations and clock steps up to the depth bound",
  "Tests sleep 110 ms once or twice; the boundary instant, several entries with different ages and pins across the limit are not tried.",
  [L], [("discardIdle, removeExpiredEntries, setTimeout", L)], ["lookup, removeElement calls, getLastUseTime, getInsertionTime, ageOfLRUItemInMicroseconds"], LST)
p("C35", "Lookups that opt out of usage tracking leave the eviction order alone",
  "A lookup and its release made with the order-preserving option neither change which entry is evicted or expires next nor when, and any overlap of such lookups with ordinary ones on the same entries keeps the cache consistent: every unpinned entry stays evictable, every ordinary release counts as a use, and no pinned entry is destroyed.",
  ["histories"], "for every overlap of ordinary and order-preserving lookups and releases up to the depth bound, with evictions and expiry in between",
  "One test uses order-preserving lookups alone and one removes an entry during one; they are never overlapped with ordinary lookups or expiry.",
  [L], [("update_eviction_order option", L+":lookupWithOptions, releaseWithOptions")], ["removeElement order, lookup, sizes, absence of crash"], LST)
p("C36", "Reconfiguring a live cache keeps it consistent",
  "Changing the capacity, or switching between LRU and age-based eviction while no limit is in force, at any point of any history, takes effect at once, evicts exactly what the new setting requires and keeps contents, pins, accounting and evictability of every entry intact.",
  ["histories", "configurations"], "for every sequence of cache operations with reconfigurations up to the depth bound",
  "Tests set the mode once before use and change only the capacity of unpinned caches.",
  [L], [("setMaxSize, setMaxIdleSeconds, setAgeBasedEviction", L)], ["removeElement order, lookup, sizes, absence of crash"], LST)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
