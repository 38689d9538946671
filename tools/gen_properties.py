#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles and statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
S = "src/checkpoint/"
C = S + "container/"
D = S + "dispatch/"
V = D + "vrt/"

prop("C01", "Round trip through memory reproduces any supported value exactly",
  "Serializing any value of a supported type (arithmetic, enum, string, standard container or adaptor, pair, tuple, optional, variant, duration, owning pointer, user class with a serialize member or free function, byte-copyable class, and any nesting of these) and deserializing the bytes yields a new object equal to the original. Equality is deep and bit-exact: element values and bit patterns, element order where the container has one (including the relative order of equal keys), emptiness and nullness, the active alternative, and at least the same vector capacity. This holds with serialization error checking compiled in and compiled out.",
  ["inputs", "programs", "configurations"],
  "every value of every type composable from the supported building blocks, in both error-checking configurations",
  "The tests sample a few dozen hand-picked values per container, almost all non-nested, in the one configuration they are compiled in; type composition and value space (empty, huge, NaN, embedded NUL, duplicate keys, custom comparators) are unbounded.",
  [C + f for f in ("vector_serialize.h","list_serialize.h","map_serialize.h","queue_serialize.h","string_serialize.h","tuple_serialize.h","variant_serialize.h","optional_serialize.h","unique_ptr_serialize.h","array_serialize.h","enum_serialize.h","chrono_serialize.h","container_serialize.h")] + [D+"dispatch.impl.h", D+"dispatch_serializer_nonbyte.h", D+"dispatch_serializer_byte.h"],
  [("per-container serialize overloads", C), ("byte / non-byte dispatch", D+"dispatch_serializer_byte.h"), ("traversal driver", D+"dispatch.impl.h Traverse::with")],
  ["checkpoint::serialize", "checkpoint::deserialize"])

prop("C02", "Reported, allocated and written sizes agree exactly; no out-of-bounds write",
  "For every value the size query, the size handed to a user buffer callback, the size recorded in the result, the length of the file written and the number of bytes put on a stream are all the same number. Serialization writes every one of those bytes and no byte outside them, whatever memory the caller supplied, and calls the callback exactly once (a callback that returns null means library-allocated memory). A class whose sizing and packing passes disagree is reported as a serialization error and still causes no write outside the buffer.",
  ["inputs", "programs"],
  "every value of every supported type, every caller-supplied buffer, and user serializers that behave differently while sizing and while packing",
  "Tests check the size of a couple of structures and one kind of disagreement; buffer overruns by a few bytes go unnoticed without sanitizers or canaries.",
  [S+"serializers/sizer.cc", S+"serializers/packer.impl.h", S+"serializers/stream_serializer.h", S+"buffer/managed_buffer.h", S+"buffer/user_buffer.h", S+"buffer/io_buffer.cc", D+"dispatch.impl.h", S+"checkpoint_api.impl.h"],
  [("sizing pass precedes packing pass over the same traversal", D+"dispatch.impl.h serializeType"), ("used-size validation", D+"dispatch.impl.h validatePackerBufferSize")],
  ["checkpoint::getSize", "buffer callback argument", "SerializedInfo::getSize", "file length", "ostream position", "canary bytes around the buffer"])

prop("C03", "Serialized objects are self-delimiting",
  "Deserializing an object reads exactly the bytes that its serialization produced: never beyond the end of a buffer or mapping, and leaving an input stream positioned immediately after the object. Any sequence of objects of any types written one after another to one stream or one buffer, with arbitrary other data before, between and after them, can therefore be read back in the same order, each equal to what was written.",
  ["inputs", "histories", "programs"],
  "every sequence of values of supported types and interleaved foreign bytes, every starting offset",
  "Tests put one or two objects on a stream; no test checks that a read stops at the last byte of the object.",
  [S+"serializers/unpacker.impl.h", S+"serializers/stream_serializer.h", S+"serializers/memory_serializer.h", C, D+"dispatch.impl.h"],
  [("cursor advance in memory serializers", S+"serializers/memory_serializer.h getSpotIncrement"), ("stream read/write of exactly size*count bytes", S+"serializers/stream_serializer.h")],
  ["istream::tellg after each object", "ASan red zone after an exact-size buffer"])

prop("C04", "Memory, user-buffer, file and stream transports are interchangeable",
  "The same object serialized to library memory, to a caller buffer, to a file and to a stream (of any standard output stream type) gives byte-for-byte the same image. An image produced by any of them can be deserialized by any of the others, as a new object, into caller-provided object storage or in place, with the same result.",
  ["inputs", "programs"],
  "every supported type and value (including runtime-polymorphic objects), every ordered pair of producing and consuming transport",
  "Tests exercise each transport on its own with one or two non-polymorphic types and never compare images.",
  [S+"checkpoint_api.impl.h", S+"serializers/packer.h", S+"serializers/unpacker.h", S+"serializers/stream_serializer.h", S+"serializers/serializers_headers.h", S+"buffer/io_buffer.cc", V+"serialize_instantiator.h"],
  [("one traversal, templated on the serializer", D+"dispatch.impl.h Traverse::with"), ("list of serializers instantiated for polymorphic types", S+"serializers/serializers_headers.h")],
  ["bytes of SerializedInfo, user buffer, file, stream", "the object each consumer returns"])

prop("C05", "Serialization is pure and repeatable; copies are independent",
  "Sizing, serializing, footprinting or writing an object to any transport leaves the object's observable value unchanged, and repeating it gives byte-identical output. Deserialization does not modify the serialized bytes, can be repeated from the same bytes any number of times, and each result owns its state: changing or destroying the source, the buffer or another copy never affects it.",
  ["inputs", "histories", "programs"],
  "every supported value and every order of repeated size/serialize/footprint/deserialize/mutate/destroy operations",
  "Tests serialize each object once and compare; no test re-serializes, deserializes twice, or mutates one copy and looks at the other.",
  [D+"dispatch.impl.h", C+"string_serialize.h", C+"vector_serialize.h", C+"queue_serialize.h", C+"enum_serialize.h", C+"unique_ptr_serialize.h", D+"clean_type.h"],
  [("traversal takes a non-const reference and relies on every overload to only read while sizing/packing", C), ("bytes are copied into the new object", S+"serializers/unpacker.impl.h")],
  ["deep snapshot of the source before/after", "buffer bytes before/after", "read-only mapped input buffer"])

prop("C06", "In-place deserialization fully replaces the previous state",
  "Deserializing in place (from memory, file or stream) into an existing object leaves it equal to the serialized object whatever the target held before: no element, key, alternative, pointee or flag of the old state survives, at any nesting depth (only a polymorphic pointee already in place must have the serialized dynamic type). It consumes exactly the serialized bytes, and whatever the target owned before is released.",
  ["inputs", "histories", "programs"],
  "every pair (serialized value, prior target value) of every supported type, for each in-place entry point and for repeated in-place reads into the same object",
  "Tests deserialize in place only into freshly constructed or structurally identical targets.",
  [S+"checkpoint_api.impl.h", C+"map_serialize.h", C+"list_serialize.h", C+"queue_serialize.h", C+"vector_serialize.h", C+"optional_serialize.h", C+"variant_serialize.h", C+"unique_ptr_serialize.h", C+"string_serialize.h"],
  [("per-container replace-on-unpack logic", C)],
  ["checkpoint::deserializeInPlace", "checkpoint::deserializeInPlaceFromFile", "checkpoint::deserializeInPlaceFromStream"])

prop("C07", "No leaks, no double destruction: object lifetimes balance",
  "Over any successful sequence of serialize, deserialize and in-place operations, every object the library constructs (including temporaries it makes on the way) is destroyed exactly once: by the library if it is temporary, otherwise when the caller destroys the result. After the caller has released its results, all memory, file descriptors and mappings taken by the operation have been given back. Objects are never used before construction or after destruction.",
  ["inputs", "histories", "programs"],
  "every supported type (in particular containers of elements that own memory or are move-only, tagged or reconstructed), every sequence of operations",
  "The test suite runs without leak accounting and its element types mostly own no heap memory, so temporaries that are never destroyed are invisible.",
  [C+"list_serialize.h", C+"map_serialize.h", C+"queue_serialize.h", C+"optional_serialize.h", C+"variant_serialize.h", C+"vector_serialize.h", C+"unique_ptr_serialize.h", D+"allocator.h", D+"reconstructor.h", D+"dispatch.impl.h", V+"virtual_serialize.h"],
  [("raw storage for temporaries", D+"allocator.h"), ("placement construction", D+"reconstructor.h"), ("ownership handed to unique_ptr", D+"dispatch.impl.h deserializeType")],
  ["constructor/destructor ledger of tracked element types", "heap bytes in use before/after", "open descriptors and mappings before/after"])

prop("C08", "Mismatched or damaged images are rejected with a serialization error",
  "Bytes written for one type and read as a different type are rejected with a serialization error, for any two distinct types, in both error-checking configurations, by every deserialization entry point; bytes whose leading type mark is not a valid mark are rejected the same way. With error checking compiled in, the mismatch is also detected when it is nested anywhere inside the object (a class whose serialize visits different types when packing and unpacking), and the error identifies the chain of enclosing types. A matching read is never rejected.",
  ["inputs", "programs", "configurations"],
  "all ordered pairs of distinct types among arbitrarily many, all corruptions of the leading mark, all nesting positions of a mismatch",
  "Tests check a handful of type pairs in one configuration; index collisions between many types and deeper positions are not sampled.",
  [D+"dispatch.impl.h", D+"type_registry.h"],
  [("type mark before every object", D+"dispatch.impl.h withTypeIdx"), ("length mark after every object", D+"dispatch.impl.h withMemUsed"), ("index registry", D+"type_registry.h")],
  ["exception type and message of each deserialize entry point"],
  [("type index", "process-wide unique number per type", D+"type_registry.h getIndex")])

prop("C09", "A failed operation throws cleanly: nothing leaked, freed twice or lost",
  "When reading stops early (a stream that ends or fails at any byte), when the type check fails, or when user code (constructor, serialize, allocator, buffer callback) throws at any point of any operation, the caller gets that exception and the process keeps running. Everything the failed operation had constructed or allocated is released exactly once; memory the caller supplied (byte buffer, object storage, in-place target) still belongs to the caller and is not freed. Later operations on intact data work normally.",
  ["fault_sequences", "inputs", "crash_points"],
  "every byte position at which a stream may end, every point at which user code or allocation may throw, for every operation and supported type",
  "Tests contain a few EXPECT_THROW checks without leak accounting and never fail in the middle of a container, pointer or polymorphic object.",
  [D+"dispatch.impl.h", S+"checkpoint_api.impl.h", S+"serializers/stream_serializer.h", D+"allocator.h", C, V+"virtual_serialize.h"],
  [("guards around object construction and unpacking", D+"dispatch.impl.h deserializeType"), ("stream state check after read", S+"serializers/stream_serializer.h")],
  ["exception escaping the entry point", "constructor/destructor ledger", "heap bytes in use before/after"])

prop("C10", "File checkpoints report every I/O failure and never restore partial data",
  "Writing a checkpoint file either succeeds, leaving a file of exactly the serialized size with exactly the serialized bytes whatever the file held before, or throws a runtime error; a failure of any system call used to open, size, map, sync, unmap or close the file being written is such an error and never terminates the process (a file system that cannot preallocate space is not a failure). Reading a missing, unreadable, empty, truncated or otherwise too short file, or one that cannot be opened, sized or mapped, throws instead of crashing or returning an object. In all cases no descriptor or mapping stays behind, and a later attempt on a good file succeeds.",
  ["fault_sequences", "crash_points", "inputs"],
  "every system call the file transport makes failing with every relevant error, every truncation length, every previous content of the file",
  "Tests only write and read back one good file; no system call ever fails in them and no short file is read.",
  [S+"buffer/io_buffer.cc", S+"buffer/io_buffer.h", S+"checkpoint_api.impl.h", S+"serializers/unpacker.impl.h"],
  [("error checks after each system call", S+"buffer/io_buffer.cc"), ("close on destruction", S+"buffer/io_buffer.h ~IOBuffer")],
  ["wrapped libc calls (open, fstat, fallocate, ftruncate, fsync, mmap, msync, munmap, close)", "/proc/self/fd and mapping ledger", "file bytes"])

prop("C11", "A checkpoint can be restored by another run of the same program",
  "A file or stream image written by one process is restored to an equal object by any other process running the same executable, whatever operations either process performed before, in whatever order, on whatever threads. This includes the identity of polymorphic objects. Objects built the same way give identical images in every such process, except for unordered containers' iteration order and padding inside byte-copied classes.",
  ["histories", "programs", "crash_points"],
  "every pair of process histories (order of first use of types, address-space layout, threads) of one executable",
  "Every test writes and reads in the same process, so identifiers assigned on first use or tied to addresses pass.",
  [D+"type_registry.h", V+"object_registry.h", V+"serializer_registry.h", S+"buffer/io_buffer.cc", S+"checkpoint_api.impl.h"],
  [("type indices assigned during static initialization", D+"type_registry.h Type<T>::idx"), ("object indices assigned during static initialization", V+"object_registry.h Type<T>::idx")],
  ["files exchanged between processes with different histories"])

prop("C12", "Polymorphic objects keep dynamic type and every level's state",
  "An object held by a pointer to a serializable class hierarchy is restored with its exact dynamic type and with the members of every class level, each level's serialize being applied exactly once per pass and base classes before derived ones. This holds for any hierarchy depth and width, several hierarchies in one object, polymorphic members nested in polymorphic objects (by pointer and by value), arrays and containers of them, abstract bases, null pointers, pointers typed at an intermediate class, every declaration style offered, and every transport.",
  ["inputs", "programs", "histories"],
  "every object graph built from serializable hierarchies, every transport and order of use",
  "Tests use one or two small hierarchies through memory only; nesting, by-value arrays, order of use and other transports are not covered.",
  [V+f for f in ("base.h","derived.h","virtual_serialize.h","object_registry.h","serializer_registry.h","link_derived_to_base_idx.h","serialize_instantiator.h")] + [D+"dispatch_serializer_nonbyte.h", C+"unique_ptr_serialize.h"],
  [("virtual per-level serialize chain", V+"derived.h"), ("dynamic type index recorded before the object", V+"virtual_serialize.h"), ("virtual-disabled flag prevents recursion", D+"dispatch_serializer_nonbyte.h")],
  ["per-level call trace of each pass", "typeid and members of the restored object"],
  [("virtual dispatch flag", "one-shot: next object is dispatched statically", S+"serializers/base_serializer.h")])

prop("C13", "Objects are built the way their class asks for, everywhere",
  "When a new object has to be created during deserialization, the class's way of construction for deserialization is used with the documented precedence: tagged constructor, then reconstruct function (member, free or specialised), then default constructor. This holds wherever the object appears: at top level, in caller-provided storage, behind an owning pointer, as a polymorphic type, or as an element of any sequence, set, queue, tuple, optional or variant (a pair, hence a map entry, is default constructed as a whole); its deserialized state is then the serialized one, and construction happens before its serialize is called.",
  ["programs", "inputs"],
  "every combination of available construction means of a class with every place where an object of it can occur",
  "Tests check one construction means at a time, mostly at top level or in one vector.",
  [D+"reconstructor.h", S+"traits/serializable_traits.h", S+"traits/reconstructor_traits.h", C+"vector_serialize.h", C+"list_serialize.h", C+"map_serialize.h", C+"queue_serialize.h", C+"tuple_serialize.h", C+"optional_serialize.h", C+"variant_serialize.h", V+"object_registry.h"],
  [("precedence chain", D+"reconstructor.h construct"), ("trait detection", S+"traits/serializable_traits.h")],
  ["construction trace recorded by instrumented classes"])

prop("C14", "Memory footprint follows its accounting model for any structure",
  "The reported footprint of an object is never less than its size plus the caller's offset, and equals the documented accounting of what it holds: containers count themselves, their elements (unused vector and string capacity included) and whatever those own, owning and plain pointers count the pointer plus a non-null pointee, an optional counts itself and the size of its value, queues and stacks count the size of their elements, a vector of bool counts itself, and types that cannot be serialized count their own size. The result is the same on every call, is additive in the offset, does not shrink when a list, set, map or queue gets another element, does not depend on error checking, and taking it never changes the object.",
  ["inputs", "programs", "configurations"],
  "every value of every traversable or opaque type, any nesting, any offset",
  "Tests assert the formula on single-level containers of a few elements.",
  [S+"serializers/footprinter.h", S+"checkpoint_api.impl.h"] + [C+f for f in ("vector_serialize.h","string_serialize.h","map_serialize.h","list_serialize.h","container_serialize.h","queue_serialize.h","raw_ptr_serialize.h","shared_ptr_serialize.h","unique_ptr_serialize.h","optional_serialize.h","tuple_serialize.h","function_serialize.h","atomic_serialize.h","thread_serialize.h")],
  [("footprinting pass over the same traversal", S+"serializers/footprinter.h"), ("fallback for opaque types", D+"dispatch_serializer_nonbyte.h applyStatic justFootprint")],
  ["checkpoint::getMemoryFootprint"])

prop("C15", "Independent operations on different threads are safe and correct",
  "Threads that concurrently serialize, deserialize, size or footprint different objects (of the same or different types, polymorphic or not, to memory, files or streams), with failing reads among them, get exactly the results they would get alone, from the very first use on. They do so without any data race on library state. Several threads may also deserialize from one shared image, each getting its own equal object.",
  ["schedules", "histories"],
  "every interleaving of operations on distinct objects by any number of threads, including the first use of each type",
  "All tests are single threaded.",
  [D+"type_registry.h", V+"serializer_registry.h", V+"object_registry.h", V+"link_derived_to_base_idx.h", V+"inheritance_assert_helpers.h", D+"dispatch_serializer_nonbyte.h"],
  [("registries filled during static initialization and only read afterwards", V)],
  ["ThreadSanitizer reports", "per-thread results"],
  [("registries", "process-wide vectors and maps of types and serializers", V + " and " + D+"type_registry.h")])

prop("C16", "A traversal visits every piece of an object exactly once, in order",
  "A user-defined traverser run over any object is presented with all of its data exactly once, in the same order and with the same element sizes and counts as in sizing, packing and unpacking: one that collects bytes while packing obtains exactly the library's image, one that supplies those bytes while unpacking obtains an equal object, and one that only observes sees the same data and changes nothing. Its overridden per-type dispatch is honoured for every object visited, at every depth.",
  ["inputs", "programs"],
  "every object of every traversable type and every user-defined traverser or dispatcher",
  "Tests run two custom traversers over one small structure.",
  [D+"dispatch.impl.h", D+"dispatch.h", D+"dispatch_serializer_nonbyte.h", D+"dispatch_serializer_byte.h", S+"serializers/base_serializer.h", C],
  [("Traverse::with recursion and DispatcherType hook", D+"dispatch.impl.h"), ("contiguousTyped/contiguousBytes extension point", S+"serializers/base_serializer.h")],
  ["event log of a recording traverser"])

prop("C17", "Images are position independent and need no alignment",
  "Serialized bytes may be copied or moved to any address, with any alignment, or into read-only memory, and any of the entry points that read a caller's bytes still restores an equal object; likewise serialization may write to a caller buffer of any alignment, giving the same bytes. The image holds no address of the source, so objects built the same way give equal images wherever they and their parts live in memory (unordered containers' iteration order and padding inside byte-copied classes aside). No misaligned or otherwise undefined access happens on the way.",
  ["inputs", "programs", "configurations"],
  "every supported value, every buffer address and alignment, every placement of the source object in memory",
  "Tests read back from the buffer the library itself allocated, which is maximally aligned.",
  [S+"serializers/packer.impl.h", S+"serializers/unpacker.impl.h", S+"serializers/memory_serializer.h", D+"dispatch_serializer_byte.h", C],
  [("all data moved with memcpy", S+"serializers/packer.impl.h and unpacker.impl.h")],
  ["UBSan alignment checks", "images of equal objects built at different addresses"])

prop("C18", "Kokkos views and Kokkos containers round trip",
  "Kokkos views of any rank, layout and memory traits, dynamic-rank and dual views, and the Kokkos pair, complex, array and unordered-map types are restored with equal extents, label and elements.",
  ["inputs", "programs", "configurations"],
  "every view type, extent and layout supported with Kokkos enabled",
  "The Kokkos tests are not built here and sample few extents.",
  [C+f for f in ("view_serialize.h","view_traverse_manual.h","view_traverse_ndim.h","view_traits_extract.h","kokkos_unordered_map_serialize.h","kokkos_pair_serialize.h","kokkos_complex_serialize.h","kokkos_array.h")],
  [("view serializers, compiled only with Kokkos", C+"view_serialize.h")],
  ["checkpoint::serialize / deserialize of Kokkos types"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
