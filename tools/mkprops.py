#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the list is kept here so that it can be reviewed as text)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    assert statement.count('. ') <= 2, (id, statement)
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

prop("C01", "Exact lookup: a dictionary holds exactly the accepted keys and values",
 "A dictionary built from any sequence of accepted insertions contains exactly the accepted keys: each one is found, with the value of its last accepted insertion, by every exact-match call (string or string-with-length, contains, find, find-with-out-parameter). Every other byte string, including proper prefixes, extensions and strings with null bytes, is reported absent by all of them.",
 ["inputs"], "every set of null-free byte-string keys (the empty key included) with values 0..2^31-1, and every byte string asked for",
 "The tests build two tiny dictionaries and only print what the lookups return; no test asserts a lookup, a value, or the absence of a key.",
 ["dawg_builder.go", "dawg_unit.go", "base_unit.go", "dictionary_builder.go", "dictionary_unit.go", "dictionary_extra_unit.go", "link_table.go", "dictionary.go"],
 [("state merging by hash (equality of label, target and sibling lists)", "dawg_builder.go fixUnits/areEqual/findUnit"),
  ("double-array placement without collisions, labels of unused units", "dictionary_builder.go arrangeChildNodes/isGoodOffset/fixBlock"),
  ("label check on every step", "dictionary.go Follow")],
 [("lexicon", "ordered map key -> value of accepted insertions", "dawg_builder.go InsertKeyValue")],
 ["return values of the exact-match calls"])

prop("C02", "Exact prefix navigation, one byte or many at a time",
 "From the root of a dictionary, following bytes succeeds exactly while the bytes followed are a prefix of some key, whatever byte is tried at whatever position, and a failed single step does not move the position. At every position reached, the end-of-key test and the value are those of the key spelled so far. Following a string (also by length, also counting) stops at the longest matching prefix and adds its length to the count.",
 ["inputs"], "every dictionary, every reachable position, all 256 bytes from it, every string followed",
 "No test follows a transition or looks at a position; the property is about all 256 labels at every node, including the ones that are not there.",
 ["dictionary.go", "dictionary_builder.go", "dictionary_unit.go"],
 [("transition test", "dictionary.go Follow, FollowString*"), ("labels of unused units", "dictionary_builder.go fixBlock"),
  ("leaf flags", "dictionary_unit.go")],
 [("position", "the bytes followed so far", "dictionary.go index arguments")],
 ["Follow*, HasValue, Value"])

prop("C03", "Insertion accepts exactly the keys in order and a refusal changes nothing",
 "An insertion is accepted exactly when the key has no null byte, the value is not negative, and the key is not below the last accepted key in byte order; accepting the last key again replaces its value. A refused insertion has no effect whatsoever on what is built afterwards.",
 ["histories", "inputs"], "every sequence of insertion calls (all three entry points), in any order, with duplicates, prefixes, null bytes and negative values",
 "The tests insert twelve keys in ascending order and do not look at the result of an insertion.",
 ["dawg_builder.go", "dawg_unit.go"],
 [("order check against the path of the last key", "dawg_builder.go InsertKeyValue"), ("unit recycling", "dawg_builder.go allocateUnit/freeUnit")],
 [("last accepted key", "path of units not yet fixed", "dawg_builder.go unfixedUnits")],
 ["result of Insert*, contents of the dictionary built afterwards"])

prop("C04", "What is built depends only on the accepted keys and values",
 "Two builds with the same accepted keys and values save to the same bytes, whatever the initial table size (at least 1), the refused insertions, or what the builder, automaton, dictionary, guide or index object was used for before. A builder starts afresh after finishing, and automata and dictionaries produced earlier are unaffected by what it is used for next.",
 ["histories"], "every history of creating, filling, finishing, refilling and clearing builders and automata, and building dictionaries from them in any order",
 "Each test uses one builder once; reuse, other table sizes and object independence are never exercised.",
 ["dawg_builder.go", "dawg.go", "bit_pool.go", "dictionary_builder.go"],
 [("swap of pools and reset at the end of a build", "dawg_builder.go Finish/clear/init"), ("hash table growth", "dawg_builder.go expandHashTable")],
 [("builders, automata, dictionaries", "which lexicon each object stands for", "dawg_builder.go, dawg.go, dictionary.go")],
 ["saved bytes, counters and lookups of every object of a history"])

prop("C05", "The automaton is the minimal one and its counters are its true sizes",
 "The automaton of a finished build spells out exactly the accepted keys and values, its transitions in ascending order at every state, and no two of its states have the same continuations. The reported numbers of states, transitions, merged states, merging states and merged transitions are those of this minimal automaton against the plain tree of the keys.",
 ["inputs"], "every set of keys and values, small and large tables, shared suffixes of every shape",
 "No test reads a counter or walks the automaton; a builder that merges too little still answers every lookup correctly.",
 ["dawg_builder.go", "dawg.go", "dawg_unit.go", "base_unit.go", "bit_pool.go"],
 [("lookup of an equal state before adding one", "dawg_builder.go findUnit/areEqual/hashUnit/hashTransition"), ("counting", "dawg_builder.go fixUnits"), ("merging flags", "bit_pool.go")],
 [("automaton", "states as lists of (label, target or value)", "dawg.go basePool/labelPool")],
 ["Root/Child/Sibling/Label/Value/IsLeaf/IsMerging, NumOf*"])

prop("C06", "Completion lists every key below a prefix once, in byte order, with its value",
 "Started at the position of any prefix in a dictionary, the completer returns every key with that prefix exactly once, in ascending byte order, each with its value and its length, spelled after the prefix text it was given; then it reports the end, as often as it is asked. Starting it again, at any moment and anywhere, begins a complete new listing. The guide names, at every position, the smallest byte that can follow it and the next larger one after each that can.",
 ["inputs", "histories"], "every dictionary, every start position, every prefix text, every sequence of start and next calls",
 "No test runs a completer.",
 ["completer.go", "guide.go", "guide_builder.go", "dictionary.go"],
 [("first-child and next-sibling labels per unit", "guide_builder.go buildIndices"), ("explicit stack walk", "completer.go Next/FindTerminal")],
 [("cursor", "keys still to be returned", "completer.go indexStack/path/lastIndex")],
 ["Next, Key, Value, Length"])

prop("C07", "Ranked completion lists every key once, the highest values first",
 "Started at the position of any prefix in a dictionary, the ranked completer returns every key with that prefix exactly once, with its value and length, spelled after the prefix text it was given, and then reports the end as often as it is asked; starting it again, at any moment and anywhere, begins a complete new listing. With the default order the values never increase along the listing; with a caller-supplied order the listing is still complete and without repetition. The first child a ranked guide of the default order names at a position leads to the highest value at and below it.",
 ["inputs", "histories"], "every dictionary with any distribution of values (ties, keys that are prefixes of others), every start position, every sequence of start and next calls",
 "No test builds a ranked guide or runs a ranked completer.",
 ["ranked_completer.go", "ranked_completer_candidate.go", "ranked_completer_node.go", "ranked_guide.go", "ranked_guide_builder.go", "ranked_guide_link.go"],
 [("children sorted by their best value, end of key among them", "ranked_guide_builder.go buildIndices/turnLinksToUnits"), ("candidate heap", "ranked_completer.go Next")],
 [("cursor", "keys still to be returned and the last value", "ranked_completer.go nodes/nodeQueue/candidateQueue")],
 ["Next, Key, Value, Length"])

prop("C08", "Key numbers are the ranks of the keys, and number and key are inverse",
 "With an ordinary guide, the number of a key is how many keys are smaller in byte order, the key of a number below the total is the key with that number, and the total is the number of keys. Every string that is not a key is reported as not found, and no key is returned for a number that is not below the total. The count the index has at a position is the number of keys at and below it.",
 ["inputs"], "every dictionary, every string and every number asked for",
 "No test builds an index or asks for a number.",
 ["index.go", "index_builder.go", "indexer.go", "guide_builder.go"],
 [("number of keys below each unit, shared units counted once per path", "index_builder.go buildIndices"), ("summing the siblings passed", "indexer.go BytesToIndex/IndexToBytes")],
 [("ranks", "position of each key in byte order", "index.go units")],
 ["StringToIndex, BytesToIndex, IndexToString, IndexToBytes, TotalCount"])

prop("C09", "Key numbers with a ranked guide are still a numbering of the keys",
 "With a ranked guide, keys and the numbers from 0 up to the total are matched one to one: the number of a key is below the total and leads back to that key, and every number below the total leads to a key whose number it is. Strings that are not keys are reported as not found, no key is returned for other numbers, the total is the number of keys, and the count at a position is the number of keys at and below it.",
 ["inputs"], "every dictionary with any distribution of values, every string and every number asked for",
 "No test combines an index with a ranked guide, where the end of a key can come before, between or after the children.",
 ["index.go", "index_builder.go", "indexer.go", "ranked_guide_builder.go"],
 [("children in guide order, end of key skipped wherever it is listed", "indexer.go childLabels"), ("counts", "index_builder.go buildIndices")],
 [("numbering", "a bijection between keys and 0..total-1", "index.go units")],
 ["StringToIndex, IndexToString, TotalCount"])

prop("C10", "Saving and loading any part gives back the same behaviour and bytes",
 "A dictionary, guide, ranked guide or index that is written and read back answers every lookup, navigation, completion and numbering query as the original did, and writes the same bytes again. Writing produces exactly as many bytes as the announced file size, reading consumes exactly those, however the stream delivers them, so parts can follow each other in one stream; reading into an object, in use or cleared, replaces all it held before.",
 ["inputs", "configurations"], "every dictionary and its parts, in every order in one stream, through readers that return data in pieces of any size",
 "No test writes or reads anything.",
 ["dictionary.go", "guide.go", "ranked_guide.go", "index.go"],
 [("count and little-endian units", "dictionary.go Read/Write and the same in guide.go, ranked_guide.go, index.go")],
 [("stream", "the sequence of parts written", "Read/Write of the four parts")],
 ["Read, Write, Read*, FileSize, TotalSize, Size, queries on loaded parts"])

prop("C11", "An incomplete file or a failing device is never taken for success",
 "When a saved dictionary, guide, ranked guide or index has been cut short at any byte, or the reader fails at any byte, reading it reports failure, does not panic, and leaves the object with the contents it had. When the writer fails at any byte, writing reports failure.",
 ["crash_points", "fault_sequences"], "every byte at which a stream can end or fail, for every part, for objects that were empty or already loaded",
 "No test makes a read or a write fail.",
 ["dictionary.go", "guide.go", "ranked_guide.go", "index.go"],
 [("error checks after header and body, contents replaced last", "dictionary.go Read/Write and the same in guide.go, ranked_guide.go, index.go")],
 [("stored bytes", "what reached the device before the fault", "Write")],
 ["result of Read and Write, queries on the object after a failed Read"])

prop("C12", "Saved files keep the dawgdic layout",
 "A saved dictionary is a 32-bit little-endian count and that many 32-bit little-endian units of the dawgdic double array: a reader written from that layout alone finds exactly the keys and values, and can follow no other path. A saved guide or ranked guide is a count and one (first child, next sibling) byte pair per unit, and a saved index is a count and one 32-bit number of keys per unit, for the units of that dictionary; files in this layout that were saved earlier load and answer correctly. The reported number of unused units is the number of units that no key passes through.",
 ["inputs", "configurations"], "every dictionary and its saved parts, and files saved by earlier versions",
 "No test reads a file; a change of layout made in both directions passes every round trip.",
 ["dictionary_unit.go", "dictionary.go", "guide_unit.go", "guide.go", "ranked_guide.go", "index.go", "test/dictionary.dawg"],
 [("bit layout of units", "dictionary_unit.go"), ("header and byte order", "dictionary.go Write"), ("unused units", "dictionary_builder.go fixBlock")],
 [("units", "label, leaf flag, offset, extension flag, value", "dictionary_unit.go")],
 ["bytes written, BuildWithUnused"])

prop("C13", "UTF-C decoding gives back every encoded string",
 "For every valid UTF-8 string, decoding its UTF-C encoding returns the same string, without panic, whatever sequence of alphabets, zero low bytes and planes it runs through.",
 ["inputs"], "every string of Unicode scalar values: every encoder state reachable, every character in it",
 "The tests decode some sixty sample strings; the encoder has some ten thousand states (current and auxiliary alphabet, mode), each with its own treatment of 1.1 million characters.",
 ["utfc.go"],
 [("same window state kept on both sides", "utfc.go UtfcState.Follow and UtfcDecode"), ("zero markers", "utfc.go marker0..marker11")],
 [("window", "current alphabet, auxiliary alphabet, mode", "utfc.go UtfcState")],
 ["UtfcEncode, UtfcDecode"])

prop("C14", "UTF-C encodings have no null byte and work as dictionary keys",
 "No UTF-C encoding contains a null byte, and different strings have different encodings. So the encodings of any set of strings, in byte order, are all accepted as keys, and a dictionary of them finds exactly those strings, with completions that decode to them.",
 ["inputs"], "every string of Unicode scalar values, every set of strings",
 "The tests look for null bytes in fifteen strings and never put an encoding into a dictionary.",
 ["utfc.go", "dawg_builder.go", "dictionary.go", "completer.go"],
 [("zero markers in every mode", "utfc.go UtfcState.Follow")],
 [("encoding", "bytes of a string", "utfc.go UtfcEncode")],
 ["UtfcEncode, insertion, lookup and completion of encodings"])

prop("C15", "UTF-C encoding is incremental: prefixes encode to prefixes",
 "The encoding of a string is the concatenation of what the encoder emits for its characters one by one, so the encoding of a prefix is a prefix of the encoding, and an encoding is a byte prefix of another only if the string is a prefix of the other. Encoding through a follower hands it exactly these bytes in order, stops at the first byte it refuses, handing over nothing more, and reports whether all were taken. A copied encoder state continues exactly like the original and independently of it, and a cleared one like a new one.",
 ["inputs", "histories"], "every string, every split of it, every byte at which a follower refuses, every copy and clear of a state",
 "The tests encode whole strings only; followers, states, copies and refusals are never used.",
 ["utfc.go"],
 [("state transitions per character", "utfc.go UtfcState.Follow/Copy/Clear"), ("abort on refusal", "utfc.go UtfcFollow")],
 [("window", "current alphabet, auxiliary alphabet, mode", "utfc.go UtfcState")],
 ["UtfcFollow, UtfcState.Follow, Copy, Clear, NewUtfcState"])

prop("C16", "The UTF-C bytes of a string never change",
 "The encoding of a string is a fixed function of it, the published window scheme: one byte for a character of the current window or the auxiliary alphabet, two in the symbol, kana and emoji ranges and for a new window below U+2600 or the current large window, three for a new large window, with one marker byte more (or less) where a zero byte would stand. So encodings stored earlier (as dictionary keys, say) keep matching and decode to the same strings.",
 ["inputs"], "every string of Unicode scalar values: every window state, every class of characters in it, every alphabet of the auxiliary table",
 "The tests compare decoding with the original only, so a change made on both sides, or a lost auxiliary alphabet, is invisible to them.",
 ["utfc.go"],
 [("windows and auxiliary alphabets", "utfc.go auxOffset, rangesLatin, rangesExtra, masks and markers")],
 [("window", "current alphabet, auxiliary alphabet, mode", "utfc.go UtfcState")],
 ["UtfcEncode, UtfcDecode"])

prop("C17", "Readers do not interfere with each other and results stay as returned",
 "Any number of lookups, navigations, completers, ranked completers, key numberings, questions for sizes and counts, savings and UTF-C calls on the same automaton, dictionary, guides and indices, in any interleaving and from any number of goroutines (each cursor used by one), give the results each would give alone. No such call changes the shared data, and a string or byte slice already returned keeps its contents whatever is called later. Separate builders, and several dictionaries, guides and indices being built from one finished automaton, may also work at the same time, and each gives what it would give alone.",
 ["schedules", "histories"], "every interleaving of calls of several readers on shared parts, sequential and concurrent",
 "The tests have one reader, one goroutine, and look at each result at once.",
 ["dictionary.go", "completer.go", "ranked_completer.go", "indexer.go", "index.go", "guide.go", "utfc.go"],
 [("queries only read; cursors and buffers are per object or per call", "dictionary.go, completer.go, ranked_completer.go, indexer.go, utfc.go")],
 [("cursors", "what each reader has still to return", "completer.go, ranked_completer.go")],
 ["results of interleaved calls, saved bytes before and after, race detector"])

prop("C18", "dawgtool builds what the lexicon says and answers queries from it",
 "Building from a lexicon file and querying with the same options prints, for every query, exactly the keys that are its prefixes (without a guide) or the keys it is a prefix of (with a guide in byte order, with a ranked guide the highest values first), with the lexicon's values clamped to 0..2^31-1 (of a repeated key the last line's), and with indices the number of the query and the complete numbered list. With sorting any order of lines works; without it, a lexicon out of order, like any input that cannot be read or dictionary file that cannot be written, ends in an error status and never in a dictionary missing keys. UTF-C keys give the same answers as plain ones, up to the order of keys.",
 ["inputs", "configurations"], "every lexicon and query file, every combination of options",
 "No test runs the tool.",
 ["cmd/dawgtool/main.go"],
 [("sorting, parsing and clamping", "cmd/dawgtool/main.go handleBuildDict/processLine"), ("queries", "cmd/dawgtool/main.go handleLoadDict")],
 [("files", "lexicon, dictionary file, query file", "cmd/dawgtool/main.go")],
 ["output and exit status of the tool"])

prop("C19", "All guarantees hold across the internal size limits",
 "Lookup, navigation, completion, ranked completion, numbering and saving are exact for dictionaries of any size that can be built: many thousands of keys, more than two million units, nodes with 255 children, keys of many thousands of bytes, and very many shared suffixes.",
 ["inputs", "configurations"], "dictionaries of every size: around each table growth, around the number of blocks kept open for placement, past the largest short offset between units",
 "The largest dictionary of the tests has eleven keys and one block of units.",
 ["dictionary_builder.go", "dictionary_unit.go", "dawg_builder.go", "link_table.go", "bit_pool.go", "guide_builder.go", "ranked_guide_builder.go", "index_builder.go"],
 [("closing of old blocks and reuse of their records", "dictionary_builder.go expandDictionary/fixBlock/fixAllBlocks"), ("extended offsets", "dictionary_unit.go dictSetOffset/dictOffset, dictionary_builder.go isGoodOffset"), ("table growth", "dawg_builder.go expandHashTable")],
 [("units", "double array of up to 2^29 units", "dictionary_builder.go units/extras")],
 ["all query calls on large dictionaries"])

prop("C20", "dawgtool writes exactly the parts asked for and reports their true sizes",
 "The file of a successful dawgtool build is the saved dictionary, then the guide or ranked guide if one is asked for, then the index if one is asked for with a guide, and nothing else, each as the library saves it for the lexicon's keys and values, so any program can load them. The report on the standard output gives the number of lexicon lines taken, the true sizes of the minimal automaton, and the true numbers of units, of unused units (also in percent) and of bytes of each part.",
 ["inputs", "configurations"], "every lexicon file and every combination of options",
 "No test runs the tool or looks at its files or its report.",
 ["cmd/dawgtool/main.go", "dictionary.go", "guide.go", "ranked_guide.go", "index.go", "dawg.go"],
 [("parts written in order", "cmd/dawgtool/main.go handleBuildDict"), ("report", "cmd/dawgtool/main.go handleBuildDict, dawg.go NumOf*, dictionary_builder.go numOfUnusedUnits")],
 [("file", "the sequence of parts in the dictionary file", "cmd/dawgtool/main.go fileDictionary")],
 ["bytes of the dictionary file, standard output of the tool"])

prop("C21", "Every part stands for itself, and a cleared or refilled one is as good as new",
 "Building, reading into, finishing into or clearing an automaton, dictionary, guide, ranked guide or index changes that object alone: every other one a program holds keeps its bytes and its answers, whatever it was built from, and listings under way through other objects go on. Completers and indexers, whenever they were made, answer from what their parts hold when they are started or asked. A cleared automaton, guide or ranked guide is that of no keys (nothing is built from it, listed or numbered through it, an automaton reports the numbers a new one does, and a guide is saved as empty), and can be filled again.",
 ["histories"], "every history of calls on any number of automata, dictionaries, guides, ranked guides, indices and saved files",
 "The tests build one dictionary with one guide each and never use an object twice, clear it or read into it.",
 ["dawg.go", "dictionary.go", "guide.go", "ranked_guide.go", "index.go", "dictionary_builder.go", "guide_builder.go", "ranked_guide_builder.go", "index_builder.go", "completer.go", "ranked_completer.go", "indexer.go"],
 [("no storage shared between objects", "dictionary_builder.go, guide_builder.go, ranked_guide_builder.go, index_builder.go setUnits; Read of each part"), ("clearing", "dawg.go, guide.go, ranked_guide.go Clear"), ("parts looked at through pointers", "completer.go, ranked_completer.go, indexer.go")],
 [("objects", "the listing each object holds", "dawg.go, dictionary.go, guide.go, ranked_guide.go, index.go")],
 ["saved bytes and answers of all objects after every call"])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
