#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

PK = ["proto/normal_codec.go", "proto/required_codec.go", "proto/option_codec.go"]

p("C01", "Round trip: decoding what was encoded gives the same message back",
  "For every supported message type and every value of it, encoding the message and decoding the bytes into a fresh message of the same type succeeds and gives an equal message. Equal means the same scalars bit for bit, the same presence of every optional field, the same lists element for element and the same map contents at every nesting depth (a nil and an empty list or map are the same value).",
  ["programs", "inputs"], "all message types built from the supported field shapes (16 wire kinds; plain, optional wrapper, scalar pointer, list, map, nested message; any field numbers, any combination in one struct, recursive types) and all values of them",
  "The tests round-trip about 30 literal messages of a dozen hand-written types; a message type picks one of over a hundred codec combinations and most are reached by no test, and values are mostly small.",
  PK + ["proto/struct.go", "proto/slice.go", "proto/map.go", "proto/walker.go", "proto/proto.go"],
  [("per-kind encode/decode pairs", "proto/normal_codec.go, proto/required_codec.go, proto/option_codec.go"),
   ("choice of codec from Go type and tag", "proto/walker.go structInfo/codec/required"),
   ("list growth and element addressing", "proto/slice.go"), ("map entry encode/decode", "proto/map.go")],
  observe=["Marshal", "Unmarshal"])

p("C02", "The reported size is exactly the number of bytes encoded",
  "For every supported message the size reported in advance equals the length of the encoding, and every length prefix inside the encoding (nested message, map entry, string, bytes) equals the number of bytes that follow for it. This holds for messages of any size, including those whose lengths cross a varint width boundary.",
  ["programs", "inputs"], "all supported message types and values, in particular lengths and field numbers at 7-bit boundaries and nested lengths that depend on inner sizes",
  "Size and encoding are separate functions per kind that must agree for every value; tests compare them on about 25 small values, none near the second, third or fourth length-prefix width.",
  ["proto/size.go"] + PK + ["proto/map.go", "proto/walker.go", "proto/slice.go"],
  [("varint width computation", "proto/size.go sizeOfVarint"), ("per-kind size functions", "proto/*_codec.go sizeOf*"),
   ("nested size plus prefix", "proto/walker.go structCodec"), ("map entry size", "proto/map.go mapSizeFuncOf/mapEncodeFuncOf")],
  observe=["Size", "Marshal"])

p("C03", "Encoded bytes mean the same to every other protobuf implementation",
  "Every encoding is a well-formed protobuf message in which each field appears under its declared number with the wire format of its declared kind, and a conforming decoder given the corresponding schema reads exactly the fields and values of the original message: nothing missing, nothing added, nothing unrecognised. Values of a list appear in order and every map entry appears once with its key and its value.",
  ["programs", "inputs"], "all supported message types (as schemas) and values",
  "The tests only feed the encoder's output to the decoder of the same library, so an error made on both sides is invisible, and no test looks at the bytes.",
  PK + ["proto/encode.go", "proto/map.go", "proto/walker.go", "proto/struct.go"],
  [("varint/fixed/zigzag primitives", "proto/encode.go"), ("wire tag from struct tag", "proto/struct.go parseStructTag, proto/walker.go"),
   ("list and map encoders", "proto/slice.go, proto/map.go")], observe=["Marshal"])

p("C04", "Every valid encoding of a message is decoded to that message",
  "Whatever legal form a conforming encoder chose, decoding gives the value the protobuf encoding rules assign to the bytes. Legal forms include fields in any order, lists packed or not or mixed, varints longer than necessary, 32-bit values sent as wider varints, a singular field sent several times (the last scalar wins, messages merge), and map entries with key and value swapped, omitted or repeated.",
  ["programs", "inputs"], "all supported message types, all values, and all legal encodings of each value",
  "The tests decode only what this encoder itself produced: one canonical form per value.",
  ["proto/decode.go", "proto/struct.go", "proto/map.go", "proto/slice.go"] + PK,
  [("varint decoder", "proto/decode.go decodeVarint"), ("field dispatch", "proto/struct.go decode"), ("map entry decoder", "proto/map.go mapDecodeFuncOf")],
  observe=["Unmarshal"])

p("C05", "Fields unknown to the receiver are skipped without disturbing the rest",
  "When the input contains fields the receiving type does not declare, with any legal field number and any varint, 32-bit, 64-bit or length-delimited payload, at any nesting level and in any position including inside map entries, decoding succeeds and gives exactly the message obtained with those fields removed. A message written with a newer schema can therefore be read with an older one and the reverse.",
  ["programs", "inputs"], "all pairs of writer and reader types that agree on their common fields, and all placements of unknown fields",
  "No test decodes an unknown field except one that reads a two-field message with a struct that has no usable fields.",
  ["proto/struct.go"], [("skip of unknown fields by wire type", "proto/struct.go decode, branch f == nil")], observe=["Unmarshal"])

p("C06", "No input can crash, hang or exhaust the decoder",
  "For every byte string and every supported message type, decoding returns either success or an error: it never panics, never ends the process, always terminates after work proportional to the input, and never allocates memory out of proportion to the bytes actually present, whatever lengths the input claims; the same goes for turning the error into text. Whatever it returns, the message is left in a state that can be read, sized, encoded and decoded into again.",
  ["inputs", "programs"], "all byte strings (random, mutated, truncated, spliced, with hostile length prefixes or nesting) times supported message types",
  "The tests give the decoder 18 truncations of one message and nothing malformed otherwise; the fuzz targets only fuzz field values, never bytes.",
  ["proto/decode.go", "proto/struct.go", "proto/slice.go", "proto/map.go", "proto/walker.go", "proto/normal_codec.go", "internal/runtime_reflect/slice.go", "internal/runtime_reflect/map.go"],
  [("bounds checks before slicing", "proto/struct.go decode"), ("length checked before copying", "proto/decode.go decodeVarlen"), ("list growth by doubling", "proto/slice.go growSlice")],
  observe=["Unmarshal, allocation counters, process exit"])

p("C07", "Malformed input is always reported, and the error says where",
  "Input that is cut off inside a field, claims a length beyond its enclosing message, contains a varint of more than 64 bits, uses an undefined wire type, opens or closes a group without its counterpart, or gives a declared field a wire type its kind does not allow is always answered with an error, never accepted silently. The error identifies the outermost field being decoded and its wire type once the field's tag has been read, and input that merely ends too early is recognisable as an unexpected end of input.",
  ["inputs", "programs"], "all malformed inputs: every cut position of valid encodings, every enlarged or shrunk length, over-long varints, undefined or mismatched wire types, at every nesting level and inside lists and map entries",
  "The tests cut one message of one type at 18 positions; no other malformation is tried and the identity of the reported field is never checked.",
  ["proto/struct.go", "proto/decode.go", "proto/error.go", "proto/normal_codec.go", "proto/map.go"],
  [("bounds and wire-type checks", "proto/struct.go decode"), ("varint overflow check", "proto/decode.go decodeVarint"), ("error wrapping", "proto/error.go fieldError")],
  observe=["error returned by Unmarshal"])

p("C08", "Decoding into a message that has content merges as protobuf prescribes",
  "Decoding bytes into a message that already holds data gives the same result as decoding the concatenation of an encoding of that data and the new bytes: scalars present are replaced, absent ones kept, nested messages merged recursively, lists extended in order, map entries added or replaced. Only the visible content counts: list elements that were cut off earlier, or left behind by a failed decode, never show up in the result.",
  ["histories", "inputs", "programs"], "all sequences of decodes into one message, all prior contents (built by hand, by decoding, truncated lists with spare capacity, after failed decodes)",
  "Every test decodes into a fresh message exactly once.",
  ["proto/slice.go", "proto/map.go", "proto/walker.go", "proto/normal_codec.go", "proto/proto.go"],
  [("append to list in place", "proto/slice.go sliceDecodeFuncOf"), ("reuse of existing sub-message", "proto/walker.go structCodec"), ("map entry assignment", "proto/map.go")],
  observe=["message after Unmarshal"])

p("C09", "Messages, inputs and outputs never share memory or change behind the caller",
  "Encoding and sizing leave the message unchanged and decoding leaves the input unchanged. A decoded message owns its memory: changing or reusing the input buffer, another decoded message or another part of the same message never alters it; likewise an encoding, once returned, is never altered by later calls or by changes to the message.",
  ["histories", "inputs", "programs"], "all interleavings of encode, decode, mutation and buffer reuse by one caller, for all supported types and values",
  "The tests never touch a buffer or message again after the call, so aliasing of strings, bytes, pooled map entries or list elements is invisible to them.",
  ["proto/normal_codec.go", "proto/map.go", "proto/slice.go", "proto/proto.go"],
  [("copying of strings and bytes", "proto/normal_codec.go decodeString/decodeBytes"), ("pooled map entry cleared after use", "proto/map.go mapDecodeFuncOf"), ("fresh output buffer", "proto/proto.go Marshal")],
  state=[("map entry pool", "scratch entries reused between map decodes", "proto/map.go structPool")],
  observe=["addresses and contents reachable from messages, inputs, outputs"])

p("C10", "Concurrent use gives the results of serial use, from the very first call",
  "Any number of goroutines may encode, size and decode distinct messages, and encode or size one shared unchanging message, at the same time, including when their calls are the first ever made for a type or for mutually recursive types: every call returns exactly what it would return alone. No execution contains a data race inside the library.",
  ["schedules", "programs"], "all schedules of concurrent first and later uses of all supported types, in particular mutually recursive ones entered at different members",
  "No test uses a second goroutine.",
  ["proto/proto.go", "proto/walker.go", "proto/slice.go", "proto/map.go"],
  [("type information caches", "proto/proto.go structInfoCache/codecCache, proto/slice.go sliceMap"), ("construction of type information", "proto/walker.go structInfo/structCodec"), ("map entry pool", "proto/map.go")],
  state=[("structInfoCache", "type -> finished type information", "proto/proto.go"), ("codecCache", "message pointer type -> codec", "proto/proto.go"), ("sliceMap", "element codec -> list codec", "proto/slice.go")],
  observe=["results of concurrent calls, race detector reports"])

p("C11", "Results never depend on what the process did before",
  "What a call returns depends only on its arguments: the types used earlier, the order and entry point in which related types were first used, earlier decoding errors, and earlier rejected types (including calls that panicked on an unsupported type and were recovered) never change how a message is encoded, sized or decoded.",
  ["histories", "programs"], "all histories of prior operations in a process, in particular permutations of first uses of types that share field types, list types or messages, and histories containing failures",
  "The tests run in one fixed order in one process, so a codec chosen by an earlier type and wrong for a later one is not seen.",
  ["proto/walker.go", "proto/slice.go", "proto/proto.go", "proto/map.go"],
  [("per-walk and global codec caches", "proto/walker.go w.codecs/w.infos, proto/slice.go sliceMap, proto/proto.go")],
  state=[("w.codecs", "codec chosen per Go type within one walk", "proto/walker.go"), ("sliceMap", "list codec by element codec", "proto/slice.go"), ("structPool", "scratch map entries", "proto/map.go")],
  observe=["results per process history"])

p("C12", "Only declared fields are read or written, and memory stays sound",
  "Encoding reads and decoding writes nothing but the exported fields that carry a protobuf tag and the memory hanging off them: unexported and untagged fields, neighbouring fields and neighbouring objects keep their contents for every layout of the struct. All memory the library creates stays valid and correctly tracked under any garbage-collection timing, and no access falls outside its object.",
  ["programs", "inputs", "schedules"], "all struct layouts mixing declared, undeclared and unexported fields, all inputs, all garbage-collection timings",
  "The library reads and writes through raw pointers computed from offsets; ordinary tests run without checkers or collection pressure and compare only declared fields, so a stray or mistyped access is usually silent.",
  ["proto/struct.go", "proto/slice.go", "proto/map.go", "proto/walker.go", "proto/option.go", "internal/runtime_reflect/slice.go", "internal/runtime_reflect/map.go"],
  [("field addressing by offset", "proto/struct.go pointer"), ("typed allocation and copy", "internal/runtime_reflect/slice.go, proto/slice.go growSlice"), ("direct runtime map access", "internal/runtime_reflect/map.go"), ("choice of codec by kind and width", "proto/walker.go")],
  observe=["canary fields, checkptr, race detector, address sanitizer, content after forced collections"])

p("C13", "Presence is explicit: set fields travel even when zero, unset ones never do",
  "An optional field (optional wrapper, scalar pointer, message pointer, bytes) is encoded exactly when it is set, even if its value is zero or empty, and after decoding it is set exactly when it was on the wire, also inside nested messages, list elements and map values. A plain scalar is encoded exactly when it differs from its zero value (negative zero counts as different), and list elements and map keys and values are always all transmitted (a nil message among them as the empty message).",
  ["programs", "inputs"], "all optional, plain, list and map field shapes of every kind, with set/unset and zero/non-zero values in every combination",
  "Tests check presence for one optional field per kind and one combination; pointers are tested only when nil, and zero elements only for two list types.",
  ["proto/option.go", "proto/option_codec.go", "proto/required_codec.go", "proto/normal_codec.go", "proto/walker.go"],
  [("optional wrapper and its codecs", "proto/option.go, proto/option_codec.go"), ("always-encode variants", "proto/required_codec.go"), ("zero omission", "proto/normal_codec.go"), ("choice between them", "proto/walker.go")],
  observe=["fields present in Marshal output", "optional fields after Unmarshal"])

p("C14", "Generated types speak the wire format of their schema",
  "For every proto2 or proto3 schema without groups, extensions and oneofs that the protobuf compiler accepts, the generator's output compiles, and messages of the generated types exchange data in both directions with an independent implementation working from the same schema, with no field lost or altered and optional and required fields keeping their presence. This includes every scalar kind, enums, nested and recursive messages, maps, packed lists and types from imported files.",
  ["programs", "inputs"], "all schemas (syntax, labels, kinds, field numbers, nesting, imports, packages) and all message values",
  "The generator has no tests at all; the one generated file used in tests covers optional scalars of proto2 except the signed fixed kinds.",
  ["internal/generator/main.go", "internal/generator/init.go", "cmd/protoc-gen-golite/main.go", "proto/walker.go", "proto/struct.go"],
  [("field type and tag emission", "internal/generator/main.go fieldGoType/fieldProtobufTagValue/genMessageField"), ("tag interpretation", "proto/struct.go parseStructTag, proto/walker.go")],
  observe=["generated source, compiler, wire bytes"])

p("C15", "The generator is deterministic and its output has the declared shape",
  "For equal requests the generator produces equal responses, with exactly one output file per requested schema file whose content does not depend on which other files are requested together with it. Each message, nested message, enum and oneof member becomes a Go declaration with a field of the documented Go type for every schema field, enum constants carry the declared numbers, accessors of oneof members are safe on nil receivers and return the held value or else the zero value (of an enum the first), a oneof takes its own members only, message values cannot be compared with ==, and publicly imported declarations are re-exported.",
  ["programs", "configurations"], "all schemas and all requests (subsets and orders of files to generate, package options, imports)",
  "The generator has no tests; the build only shows that it compiles.",
  ["internal/generator/main.go", "internal/generator/init.go", "cmd/protoc-gen-golite/main.go"],
  [("file generation", "internal/generator/main.go GenerateFile"), ("collection of messages and enums", "internal/generator/init.go newFileInfo"), ("public import forwarding", "internal/generator/main.go genImport")],
  observe=["plugin response", "declarations of the compiled output"])

p("C16", "Unusable arguments give an error, never a panic or a write",
  "Passing anything that is not a non-nil pointer to a struct as the target of a decode of non-empty input (nil, a non-pointer, a nil pointer, a pointer to something else) returns the dedicated invalid-target error naming the type and changes nothing. Encoding anything that is not a pointer to a struct returns an error, and a nil message pointer encodes as the empty message of size zero.",
  ["inputs"], "all Go values as arguments",
  "No test passes an unusable argument.",
  ["proto/proto.go", "proto/error.go"], [("argument inspection", "proto/proto.go Size/Marshal/Unmarshal"), ("error type", "proto/error.go InvalidUnmarshalError")],
  observe=["Marshal, Unmarshal, Size"])

p("C17", "Behaviour is the same on every supported Go toolchain and word size",
  "The same operations on the same inputs give the same encodings (up to map order), the same decoded messages and the same acceptance of inputs on every supported Go release from 1.23 to 1.27 and on 32-bit as on 64-bit platforms. In particular iterating, creating and filling maps of any key and value type and any size is correct on each of them.",
  ["configurations", "inputs", "programs"], "installed Go toolchains 1.23-1.27 times amd64 and 386, all supported types and inputs",
  "The tests run on one toolchain and one architecture, and hold one map test with four entries, while the map bridge depends on runtime layouts that changed between releases.",
  ["internal/runtime_reflect/map.go", "internal/runtime_reflect/slice.go", "proto/map.go", "proto/slice.go", "proto/struct.go"],
  [("private copy of the runtime's map iterator and linknamed runtime functions", "internal/runtime_reflect/map.go"), ("linknamed array allocation and copy", "internal/runtime_reflect/slice.go")],
  observe=["digests of results per toolchain and architecture"])

p("C18", "Optional wrappers report exactly what they hold",
  "An optional wrapper made from a value, by the generic or any typed constructor, reports that it is set and gives back exactly that value; an empty or never assigned one reports that it is unset and gives the caller's default where one is offered, and else the zero value. A set zero value, an empty string, an empty byte slice and a NaN count as values. Copies are independent of each other, and after a decode the wrapper's answers agree with what was on the wire, for every element type.",
  ["inputs", "histories"], "all wrapped types, all values (zero, NaN, empty and nil among them) and all sequences of assigning, copying, decoding and asking",
  "Tests build a few wrappers of some types with ordinary values; there is one constructor per type and one set of methods per instantiation, and most are called by no test.",
  ["proto/option.go", "proto/option_codec.go"],
  [("wrapper type and its methods", "proto/option.go"), ("codecs writing the wrapper", "proto/option_codec.go")],
  observe=["IsSome, IsNone, Unwrap, UnwrapOr and the constructors", "Marshal, Unmarshal"])

p("C19", "Sizing and encoding cost in proportion to the message",
  "The time to size or encode a message grows no faster than the number of fields, elements and bytes in it times the depth of their nesting, and the memory allocated on the way stays in proportion to the output. In particular no arrangement of nested messages, lists and maps makes the work exponential in the depth or quadratic in the number of elements or bytes.",
  ["inputs", "programs"], "all supported message types and values, in particular long chains of nesting, long lists, big maps and long strings",
  "The tests encode small values and never look at the time; a cost that doubles with each level or grows with the square of the length passes all of them.",
  ["proto/proto.go", "proto/walker.go", "proto/slice.go", "proto/map.go", "proto/encode.go"],
  [("nested sizes computed again at each level", "proto/walker.go structCodec"), ("list and map size and encode loops", "proto/slice.go, proto/map.go"), ("allocation of the output", "proto/proto.go Marshal")],
  observe=["processor time and allocation of Size and Marshal"])

p("C20", "The generator honours its parameters and refuses what it cannot do",
  "The parameters that say where output goes change only the places of the files, a remapped import path changes only the imports and package that it names, and position annotations point exactly at the declarations of the schema elements they name. Unknown or contradictory parameters and requests that lack needed files are answered with an error and no half output; a damaged request never yields a response that looks successful and is not. Supported features of the schema language are announced.",
  ["configurations", "inputs"], "all schemas times all combinations of generator parameters, and damaged or incomplete requests",
  "The generator has no tests at all, and its parameters are exercised by nothing in the repository.",
  ["cmd/protoc-gen-golite/main.go", "internal/generator/main.go", "internal/generator/init.go"],
  [("announced features and options", "cmd/protoc-gen-golite/main.go, internal/generator/init.go"), ("file names and annotations", "internal/generator/main.go GenerateFile, Annotate calls"), ("imports", "internal/generator/main.go genImport")],
  observe=["plugin process: exit status, response"])

p("C21", "Schema comments become Go documentation and never code",
  "The comment before a message, field, oneof, enum or enum value of the schema, and the one-line comment after a field or enum value, appear at the Go declaration that stands for it and at no other, and exactly the deprecated elements are marked as such in the Go convention. Comments never influence anything else: whatever they contain, the generated code without its comments is the same as for the schema without comments. Each file starts by saying that it was generated and from which schema file.",
  ["programs", "inputs"], "all schemas and all comment texts in all positions, including text that looks like Go directives or comments and text that is not valid Go source",
  "The generator has no tests; a comment at the wrong declaration, or one that acts as a compiler directive, still compiles in ordinary cases.",
  ["internal/generator/main.go"],
  [("comment emission", "internal/generator/main.go leadingComments/trailingComment/appendDeprecationSuffix"), ("file header", "internal/generator/main.go genGeneratedHeader")],
  observe=["generated source: comments attached to declarations, code without comments"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
