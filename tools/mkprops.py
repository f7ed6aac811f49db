#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that it is easy to edit)."""
import json, os
L = "src/libeopsi/"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=[L+f for f in files],
        state=[dict(name=a, meaning=b, where=L+c) for a,b,c in state],
        mechanism=[dict(name=a, where=L+b) for a,b in mechanism],
        observe_at=list(observe), hook_needed=hook)))

prop("C01", "The protocol delivers exactly the intersection of the two sets",
 "When two clients with the same public parameters outsource their sets to a cloud and one of them requests the computation from the other, the requester obtains exactly the elements that belong to both sets: none missing, none extra, none altered, each once. This holds for every pair of sets that fit the hash table (empty overlap, full overlap, zero, the largest value that fits, different sizes), every secret of any length including values larger than the field, every odd prime field wide enough for the elements, every table geometry and every hash algorithm the library offers, whether a client was given its parameters when it was made or later, before its set. Extra elements may appear only with the probability of a random field element ending in the full padding.",
 ["inputs","configurations"], "all pairs of sets, secrets, odd prime fields, numbers of buckets, loads and hash algorithms",
 "The simulation test runs three sizes of random sets with one geometry and one field, and only counts the result on a console; nothing compares it to the real intersection.",
 ["eopsiclient.cpp","eopsiserver.cpp","eopsiparty.cpp","zzppoly.cpp","hashbuckets.hpp","murmurhash3.cpp","strint.cpp","ntlmiss.cpp"],
 [("blinding of the bucket polynomials","eopsiclient.cpp"),("combination with random polynomials","eopsiparty.cpp"),("interpolation, factorisation and pad filter","zzppoly.cpp")],
 [("setcap","last intersection","eopsiclient.h"),("storedData","outsourced data per client","eopsiserver.h")],
 ["EOPSIClient::getIntersection after a delivered computation"])

prop("C02", "Every run in any history of runs is right, whoever takes part",
 "In every history of outsourcing, re-outsourcing, repeated requests, exchanged roles, more than two clients and refused messages in between, each completed computation gives its requester the intersection of the sets that the two clients had in the cloud at that moment. A computation changes the result of its requester only: the results, sets and secrets of all other parties stay as they were. A field or degree set after a party was made counts like one given at construction.",
 ["histories"], "all finite sequences of protocol operations by any number of clients and clouds",
 "The only protocol test performs one run between two fresh clients and exits; no second run, no exchange of roles and no third client ever happens.",
 ["eopsiclient.cpp","eopsiserver.cpp","eopsiparty.cpp"],
 [("t and q slots of the requester, emptied after use","eopsiclient.cpp"),("map of the outsourced data","eopsiserver.cpp"),("cached evaluation points","eopsiparty.cpp")],
 [("t, q","halves of the running computation","eopsiclient.h")],
 ["EOPSIClient::getIntersection, getBlindedData, getSecret of every client after every operation"])

prop("C03", "Only authenticated parties of the right kind are served",
 "A party acts on a message only if its claimed sender is someone else whom that party authenticated, and the kind of message is one that a sender of that kind may send to a receiver of that kind; a request that names inside another requester than its sender is also turned down. Every other message is refused with a protocol error, and a refused message has no effect: nothing is stored, sent or computed, and all later runs go as if it had never arrived. Authentication is one-way and never of oneself. Asking whether a message is authorised has no effect, and the answer is no for every message of an unknown sender or of a kind that the receiver does not take from such a sender, and yes for every message that would be served (what a cloud answers about messages between clouds, which it never serves, is left open).",
 ["inputs","histories"], "all (receiver, claimed sender, message kind, authentication relation) combinations, at every point of a history",
 "The existing test only sends authorised messages between parties that all authenticated each other; no refusal path is ever executed.",
 ["eopsiclient.cpp","eopsiserver.cpp","eopsiparty.cpp"],
 [("isAuthorised","eopsiclient.cpp"),("isAuthorised","eopsiserver.cpp"),("authenticate, hasAuthenticated","eopsiparty.cpp")],
 [("parties","authenticated parties","eopsiparty.h")],
 ["outcome of receive/send and isAuthorised, messages that reach other parties"])

prop("C04", "Requests that cannot be served are refused cleanly",
 "A request that cannot be served (no content, a truncated secret, a partner that the cloud does not know or that never outsourced, a requester that never outsourced) is answered with a protocol error that the caller can catch; it never crashes, never reads or writes outside its data and never yields a result. A client that has no set refuses the halves of a computation in the same way. A client that is asked to compute but knows no cloud, or whose cloud refuses, ends the program with exit status 2 instead of giving a wrong answer.",
 ["inputs","fault_sequences"], "all malformed or premature messages at every point of a history",
 "No test sends a malformed, premature or unservable message.",
 ["eopsiclient.cpp","eopsiserver.cpp"],
 [("checks at the head of the message handlers","eopsiclient.cpp"),("check of the stored data","eopsiserver.cpp")],
 [("storedData","outsourced data per client","eopsiserver.h")],
 ["outcome of receive/send (refusal, exit status), memory errors"])

prop("C05", "The cloud computes on the latest data of each client, kept apart",
 "For each client the cloud uses exactly what that client outsourced last; outsourcing by one client never changes what is kept for another, and neither computing nor refusing changes anything kept. What one cloud keeps is independent of any other cloud.",
 ["histories"], "all histories of outsourcing and computations by any number of clients and clouds",
 "The test outsources once per client to a single cloud and computes once.",
 ["eopsiserver.cpp","eopsiserver.h"],
 [("store by identity of the sender","eopsiserver.cpp")],
 [("storedData","outsourced data per client","eopsiserver.h")],
 ["content of the cloud's answer for every pair of clients after every operation"])

prop("C06", "Outsourced data is the masked evaluation of the buckets, nothing else",
 "What a client outsources is a matrix with one row per bucket and one column per public evaluation point; each entry is the value, at that point, of the monic polynomial whose roots are the elements of that (full) bucket, plus a pad generated from the client's secret and the position of the entry. Every entry has its own pad (no two entries share the position it is made of), and the shape of the matrix and its reported size do not depend on how many elements the client has. The evaluation points are a fixed public function of the field and of their number, the same for all clients and clouds.",
 ["inputs","configurations"], "all sets, secrets, fields, geometries and hash algorithms",
 "Tests never look at the outsourced matrix; a missing, repeated or constant pad leaves the final result of the test unchanged because pads cancel out.",
 ["eopsiclient.cpp","eopsiparty.cpp","zzpprf.cpp","zzprf.cpp"],
 [("blind","eopsiclient.cpp"),("generateUnknowns","eopsiparty.cpp")],
 [("blindedData","outsourced matrix","eopsiclient.h"),("unknowns","evaluation points","eopsiparty.h")],
 ["EOPSIClient::getBlindedData, getBlindedDataSize"])

prop("C07", "Every run is masked with a fresh key and random polynomials",
 "In each run the delegated client draws a fresh key of exactly 128 bits and sends it to the cloud only; the cloud's answer is the combination of the two outsourced matrices with two monic random polynomials per bucket (of the degree of the bucket load), plus a mask, all generated from that key at positions that are never used twice. The half that goes from the delegated client to the requester is the same combination of the two clients' pads. So the difference of the halves is, bucket by bucket, the combination of the two bucket polynomials, and neither half alone shows it.",
 ["inputs","histories"], "all sets, secrets, fields, geometries; all sequences of runs",
 "Masks cancel out of the final result, so no test of the result can see a weak, reused or missing mask or key.",
 ["eopsiparty.cpp","eopsiclient.cpp","eopsiserver.cpp"],
 [("computeTOrQ, genOmega","eopsiparty.cpp"),("delegationOutput, key generation","eopsiclient.cpp"),("intersectionOutput","eopsiserver.cpp")],
 [("tmpKey","key of the run","eopsiclient.cpp")],
 ["messages between the parties during a run"])

prop("C08", "Concealing fills every bucket and keeps the real elements",
 "Concealing a table brings every bucket exactly to its maximum load and keeps all elements already there, in their order and before the added ones; exactly the buckets that were empty become marked. The added elements come from the given generator, each from a new position of it, and are not counted as elements of the table; concealing a full table changes nothing.",
 ["inputs","histories"], "all tables, all fillings, repeated concealing, all generators",
 "Tests print statistics of a table and never call or inspect concealing.",
 ["hashbuckets.hpp","markedvector.hpp","prf.hpp"],
 [("conceal","hashbuckets.hpp"),("generate without arguments","prf.hpp")],
 [("buckets","cells of the table","hashtable.hpp"),("autoIndex","next automatic position","prf.hpp")],
 ["getBucket, isMarked, size after concealing"])

prop("C09", "The hash table places, counts, bounds and describes its elements",
 "An added element lands at the end of the bucket whose number is the little-endian value of its digest modulo the number of buckets (bucket 0 when no algorithm is set), an element added to an explicit bucket lands there, and nothing else changes; the size is the number of elements added. A bucket never exceeds its maximum load and no access outside the table is possible: such a call ends the program with exit status 1 before any change. The printed statistics (total, fill, minimum, maximum with their first buckets, mean, variance, deviation, bucket sizes) are those of the current content.",
 ["inputs","histories"], "all sequences of insertions, elements, geometries and hash algorithms",
 "The table test prints the statistics of random fillings to the console without comparing anything, never fills a bucket and never reads a bucket.",
 ["hashbuckets.hpp","hashtable.hpp","strint.cpp","outofboundex.cpp"],
 [("add, addToBucket, printStats","hashbuckets.hpp"),("getBucket","hashtable.hpp")],
 [("buckets","cells","hashtable.hpp"),("n","number of elements","hashtable.hpp")],
 ["getBucket, operator[], size, getLength, getMaxLoad, printStats"])

prop("C10", "Generated integers are a fixed function of seed, position and length",
 "For every seed, position and requested length of at least one bit, the integer generator returns the same value whenever and by whichever instance it is asked, regardless of earlier requests, copies or assignments, and it is the little-endian number made of the first requested bits of the SHA-1 chain started at the bytes of the seed followed by the eight little-endian bytes of the position. The value therefore never exceeds the requested length. Requests without a seed use one random seed fixed per generator, of its own unless it is a copy.",
 ["inputs","histories"], "all seeds (zero, huge), positions over the full 64-bit range, lengths, and all histories of requests on shared instances",
 "No test calls the integer generator directly; the field test draws a few values and only prints them.",
 ["zzprf.cpp","zzprf.h","prf.hpp","ntlmiss.cpp"],
 [("generate","zzprf.cpp"),("automatic seed","prf.hpp")],
 [("gen, hashInput","reused buffers","zzprf.h"),("autoSeed","seed of the instance","prf.hpp")],
 ["return value of generate"])

prop("C11", "Generated field elements follow the integer generator, cut to the field",
 "For every modulus, seed, position and requested length the field generator returns the integer generator's value for the same seed representative and position, at the requested length but never beyond the length of the modulus (which is also the default), reduced modulo the field. Changing the modulus of a generator, copying it or giving it another integer generator at construction never changes any other value it returns. Requests without arguments take consecutive positions starting from zero under one seed fixed for the instance, of its own unless it is a copy.",
 ["inputs","histories","configurations"], "all moduli, seeds, positions, lengths, histories on shared instances",
 "The generator test prints random values for one field; no value is compared with anything.",
 ["zzpprf.cpp","zzpprf.h","prf.hpp"],
 [("generate","zzpprf.cpp"),("generate() with automatic position","prf.hpp")],
 [("autoIndex","next automatic position","prf.hpp"),("modulo","modulus","zzpprf.h")],
 ["return value of generate, getModulo"])

prop("C12", "A byte string kept as a number behaves as that number",
 "A byte string read as a number is its little-endian value, cut to the declared number of bytes; setting replaces the whole previous value, whatever was set before. Remainder, increment, addition, decimal form, low machine word, byte length and big-endian bytes are exactly those of the number, for numbers of any size, and the bytes are written into the caller's buffer exactly when it is large enough and otherwise into newly allocated memory whose length is reported.",
 ["inputs","histories"], "all byte strings, declared lengths, operands, and sequences of operations on one object",
 "No test uses this class directly, and the hash table only reaches one remainder of 16- to 32-byte strings without checking it.",
 ["strint.cpp","strint.h"],
 [("set (tree-wise sum)","strint.cpp"),("toBytes, getByteSize","strint.cpp")],
 [("z","current value","strint.h"),("b","scratch numbers shared by operations","strint.h")],
 ["rem, toString, lsb, getByteSize, toBytes, operator<<"])

prop("C13", "The chronometer follows its timeline of start, steps, pauses and stop",
 "Starting forgets everything before; each step, pause and first stop records the present time, a second pause or a call after stop records nothing, a stop during a pause takes no time, and a step before any start starts. The state (running, paused, stopped) always follows this timeline. Each recorded cursor gives the interval that ended when it was recorded, the empty or unknown cursor the last interval, and the cumulative time up to a cursor is the time since the start without the paused stretches (or with them on request), in whole microseconds per interval.",
 ["histories","schedules"], "all sequences of operations and cursors, with any time passing in between",
 "Benchmarks appear in tests only as printed durations of a real clock; no value can be asserted without controlling time.",
 ["simplebm.cpp","simplebm.h"],
 [("start, step, pause, cont, stop","simplebm.cpp"),("benchmark, cumulativeBenchmark","simplebm.cpp")],
 [("times, pauses, cursors","timeline","simplebm.h")],
 ["benchmark, cumulativeBenchmark, isPaused, isStopped under a controlled clock"])

prop("C14", "Chronometer statistics are those of the recorded intervals",
 "Minimum, maximum, mean, variance and standard deviation are those of exactly the recorded intervals, leaving out the paused ones unless asked otherwise; with no interval they are zero. (The mean with pauses divides the whole time, which is cut to microseconds once and not per interval.) Asking for them never changes the chronometer.",
 ["histories","inputs"], "all sequences of operations with any durations, with and without pauses",
 "Statistics are only printed, from a real clock.",
 ["simplebm.cpp"],
 [("average, variance, standardDeviation, min, max","simplebm.cpp")],
 [("times, pauses","timeline","simplebm.h")],
 ["average, variance, standardDeviation, min, max under a controlled clock"])

prop("C15", "Batch polynomial solving finds exactly the properly padded roots",
 "Given common evaluation points and one vector of values per polynomial, the batch returns, polynomial by polynomial, exactly the field roots of the interpolated polynomials that are zero or end in at least the declared number of zero bits, shifted by it, each once per polynomial. The one-step and the step-by-step ways, both factoring algorithms, and a batch object reused with other sizes or other values all give the same answer; calling steps out of order gives an empty answer and never a stale or wrong one.",
 ["inputs","histories"], "all polynomials, padding sizes, batch sizes and sequences of calls on one object",
 "The polynomial test factors random polynomials and prints times and counts, without comparing the roots to the true ones nor reusing an object with another size.",
 ["zzppoly.cpp","zzppoly.h"],
 [("interpolate, factorise, findIntersection","zzppoly.cpp")],
 [("polynomials, n, factorPairs, roots","state of the batch","zzppoly.h")],
 ["findIntersection (both forms), size, getPadsize"])

prop("C16", "Digests are the standard ones of exactly the given content",
 "The byte-array, text and field-element hashes return the standard SHA-1, SHA-256 or (for field elements) 128-bit MurmurHash3 digest of exactly the bytes of the value (the decimal digits for a field element), or of its prefix when a shorter length is given, for every length (an array of no length has no digest, and null is returned). The result depends on nothing hashed before, on no other instance and on no copy; the reported size and name are those of the algorithm, and the readable form is the upper-case hexadecimal of the digest.",
 ["inputs","histories"], "all contents of all lengths, prefix lengths, seeds, and histories of requests",
 "Tests only feed random elements to the table; no digest is compared with a known value.",
 ["sha.hpp","shabyte.cpp","shastr.cpp","shazzp.cpp","murmurhash3.cpp","hashalgorithm.hpp"],
 [("hash","murmurhash3.cpp"),("hash","shazzp.cpp"),("hash","shabyte.cpp"),("hash","shastr.cpp")],
 [("lastHash, hash128","result buffers","sha.hpp")],
 ["hash, hashSize, name, readableDigest"])

prop("C17", "Big-number helpers compute what they say for numbers of every size",
 "The integer logarithm, the block and byte counts, the padding by a number of zero bits, the padding up to a bit length (one less than the given size, never cutting), the count of trailing zero bits and the conversions between arrays and vectors are exact for every input, including zero, one and numbers far beyond a machine word. Padding by n and then removing n bits gives the number back. The conversions keep length and order and copy, so that later changes of the source do not show.",
 ["inputs"], "all non-negative numbers, sizes and vectors",
 "No test calls these helpers with a checked result.",
 ["ntlmiss.cpp","ntlmiss.h"],
 [("log2, blocks, bytes, zeroPad, zeroPadTo, countLeadingZeros, vector2VecZZp, array2VecZZp","ntlmiss.cpp")],
 [], ["return values"])

prop("C18", "Errors carry their message, and fatal ones end the program with their code",
 "An error keeps the message, fatality and exit code it was made or changed with and shows the message when caught, the out-of-bound error giving a default explanation when none is given. An error made fatal ends the program with its exit code at the moment it is made, even inside a handler, and one that is not fatal never ends it; marking an existing error as fatal afterwards does not end the program. An explanation taken from an error stays the same until that error is changed, whatever other errors explain.",
 ["inputs","histories"], "all messages, codes and fatality settings, all sequences of changes",
 "No test makes or catches an error of the library.",
 ["exception.cpp","outofboundex.cpp","protocolex.h"],
 [("constructor and fatality handling","exception.cpp"),("default message","outofboundex.cpp")],
 [("message, fatal, exitCode","content of the error","exception.h")],
 ["what, getMessage, isFatal, getExitCode, exit status of the process"])

prop("C19", "Messages and parties keep what they are given",
 "A message keeps sender, kind, content and length independently of each other, the last value set for each being the one read; without content its length is that of an address. A party keeps its identity, kind, field and degree in the same way, recognises exactly the parties it authenticated, the last one for an identity replacing earlier ones, and delivers a message to exactly the party it is sent to, refusing only a missing one. A message keeps its values through delivery.",
 ["histories","inputs"], "all sequences of settings, authentications and deliveries",
 "Tests use one fixed sequence of settings and never read values back.",
 ["eopsimsg.cpp","eopsiparty.cpp"],
 [("setters and getters","eopsimsg.cpp"),("authenticate, send","eopsiparty.cpp")],
 [("parties","authenticated parties","eopsiparty.h")],
 ["getters, hasAuthenticated, recorded deliveries"])

prop("C20", "Separate worlds in one program do not disturb each other",
 "Objects of the library that were never given to one another share nothing that can be seen: what a group of parties, generators, tables, polynomials, digests, chronometers or messages answers is the same whatever other groups, with other fields, degrees, sizes, hash algorithms, seeds, secrets or identities, or with the very same ones, did in the same program before, do between any two of its operations, or do at the same moment in other threads (each thread with its own objects and its own field).",
 ["histories","schedules","inputs"], "all orders of the operations of two to four groups of objects, equal or different in any parameter, in one thread or several",
 "Every test program has one group of parties with one field, degree and table size, in one thread.",
 ["eopsiclient.cpp","eopsiserver.cpp","eopsiparty.cpp","zzprf.cpp","zzpprf.cpp","prf.hpp","hashtable.hpp","hashbuckets.hpp","sha.hpp","shazzp.cpp","murmurhash3.cpp","zzppoly.cpp","strint.cpp","simplebm.cpp"],
 [("generateUnknowns, computeTOrQ, blind, delegationOutput, intersect","eopsiparty.cpp"),("generate","zzprf.cpp"),("hash","shazzp.cpp"),("interpolation","zzppoly.cpp")],
 [("unknowns","evaluation points of a party","eopsiparty.h"),("gen, hashInput","buffers of a generator","zzprf.h")],
 ["everything that can be read from each group"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
