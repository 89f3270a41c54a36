#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))
S = 'steit/src/'
D = 'steit-derive/src/derive/'

p('C01', 'Integers and booleans have one canonical, lossless wire form',
  'Serialising any 8- to 64-bit integer writes exactly its minimal little-endian base-128 varint (signed values zig-zag mapped first), and a boolean exactly one byte 0 or 1; the announced size is the number of bytes written. Decoding those bytes, whatever follows them, gives back the same value and consumes exactly those bytes.',
  ['inputs'], 'every value of u8..u64, i8..i64 and bool; any bytes following the encoding',
  'The tests sample about a dozen values; the size functions, the shift loops and the zig-zag formula have boundaries at every multiple of 7 bits and at each type width.',
  [S+'impls/varint.rs', S+'impls/bool.rs', S+'impls/macros.rs'],
  [('varint size, write loop, read loop', S+'impls/varint.rs impl_unsigned_varint!/size_32/size_64'),
   ('zig-zag encode/decode', S+'impls/varint.rs impl_signed_varint!')],
  observe=['Serialize::to_bytes', 'Serialize::compute_size', 'Deserialize::deserialize'])
p('C02', 'The announced size of every value is the number of bytes it writes',
  'For every serialisable value, the size computed for it, bare or framed as a field or list element, equals the number of bytes serialising it that way writes. This holds at every nesting depth, so each length prefix inside a message is the true length of what follows it.',
  ['inputs', 'programs'], 'every value of every built-in, container and derived type, with and without a field number, omissible or not, of total size below 2^32',
  'Sizing and writing are separate code paths written per type; tests compare them on a few dozen hand-picked small values, mostly below the 128-byte boundary where length prefixes change size.',
  [S+'ser.rs', S+'impls', S+'types', D+'struct.rs', D+'enum.rs', D+'field.rs'],
  [('compute_size / serialize_cached pairs', S+'impls, '+S+'types'), ('nested framing', S+'ser.rs compute_size_nested/serialize_nested'),
   ('derived sizer and serializer', D+'struct.rs sizer/serializer')],
  state=[('size cache', 'last computed size of a composite value', S+'rt/size_cache.rs')],
  observe=['compute_size', 'cache_size', 'compute_size_nested', 'serialize_nested', 'to_bytes'])
p('C03', 'Encoding then decoding gives back an equal value',
  'For every value of every type that can be both encoded and decoded, decoding its encoding into a fresh value succeeds, yields an equal value and consumes the whole encoding. This includes arbitrarily nested combinations of lists, maps, options, tuples, arrays, boxes and derived structs and enums.',
  ['inputs', 'programs'], 'every value of every composed type, size below 2^32',
  'The composition of container codecs and derived codecs is unbounded; tests round-trip a handful of integers and hash maps only.',
  [S+'ser.rs', S+'de/de.rs', S+'de/reader.rs', S+'impls', S+'types', D+'struct.rs', D+'enum.rs'],
  [('decode loop of derived structs', D+'struct.rs merger'), ('variant dispatch of derived enums', D+'enum.rs impl_deserialize'),
   ('container codecs', S+'impls/{vec,array,tuple,option,box,hash_map,string}.rs, '+S+'types/{bytes,list,map/map,maybe}.rs')],
  observe=['to_bytes', 'Deserialize::deserialize'])
p('C04', 'Field tags pair numbers with wire types without loss',
  'For each field number up to 2^29-1 and each wire type, tagging then parsing returns the same pair, distinct pairs get distinct tags, and the low three bits carry 0 (varint) or 2 (length-prefixed). Larger field numbers and any other wire type code are rejected with an error, and every 32-bit word either is rejected or re-tags to itself.',
  ['inputs'], 'every 32-bit field number, wire type code and tag word',
  'Only a couple of small field numbers and no rejected tags appear in the tests.',
  [S+'wire_fmt.rs', S+'de/reader.rs'],
  [('tag / parse_tag / validate_field_number / from_value', S+'wire_fmt.rs'), ('reading a tag', S+'de/reader.rs read_tag')],
  observe=['wire_fmt::tag', 'wire_fmt::parse_tag', 'Reader::read_tag'])
p('C05', 'Leaving default fields out of a message loses nothing',
  'A field is left out of an encoded message only when its value equals the default of its type, and a value outside a field position (element, key, option content) is never left out. So decoding a message that omits fields restores them all.',
  ['inputs', 'programs'], 'every field value of every derived type; every element of every container',
  'Omission is decided per type from either a default comparison or a zero size; tests check it for two or three small types.',
  [S+'ser.rs', S+'impls/macros.rs', D+'field.rs', D+'enum.rs'],
  [('omission rule', S+'ser.rs is_omissible/compute_size_nested/serialize_nested'), ('primitive rule', S+'impls/macros.rs is_omissible'),
   ('default variant is tag 0 and is written', D+'enum.rs')],
  observe=['serialize_nested', 'deserialize'])
p('C06', 'Unknown and mistyped fields are skipped exactly',
  'Inserting well-formed fields that the reader does not know, or that carry a known number with another wire type, at any field boundary of a message, at any depth, changes nothing in what is decoded. Skipping consumes exactly the skipped field, whatever its length and content.',
  ['inputs', 'programs'], 'every message, every insertion point, every unknown field number and payload',
  'Forward compatibility quantifies over all future schemas; the tests contain no unknown field with a large varint or long payload.',
  [S+'de/de.rs', S+'de/reader.rs', D+'struct.rs', S+'types/map/map.rs'],
  [('merge_nested wire type check', S+'de/de.rs'), ('skip_field', S+'de/reader.rs'), ('catch-all arm of the decode loop', D+'struct.rs merger')],
  observe=['Deserialize::merge', 'Reader::skip_field'])
p('C07', 'Decoding arbitrary bytes never panics, hangs or over-allocates',
  'Decoding any byte string as any type, reading a tag, skipping a field or opening a nested reader ends with a value or an error: it never panics or loops forever, and it never reserves memory for more than the bytes actually supplied. (Recursive types nested deeper than the stack allows are excluded.)',
  ['inputs'], 'every byte string, every decodable type, every chunking of the input by the underlying reader',
  'Tests decode well-formed inputs; hostile lengths, over-long varints and truncations are an unbounded input space.',
  [S+'impls/varint.rs', S+'impls/bool.rs', S+'de/reader.rs', S+'de/de.rs', S+'impls', S+'types', D+'struct.rs', D+'enum.rs', S+'state.rs'],
  [('bounded shift in the varint loop', S+'impls/varint.rs merge'), ('skip without preallocation', S+'de/reader.rs skip_field'),
   ('progress of every decode loop', 'while !reader.eof()? loops')],
  observe=['Deserialize::merge', 'Reader::skip_field', 'State::replay'])
p('C08', 'A nested value is decoded from its own bytes and no others',
  'Decoding a length-prefixed value reads exactly the announced number of bytes (or all that is left if fewer): it never sees bytes of its neighbours and the enclosing reader continues right after it. Testing for end of input and then reading, directly or through a borrowed reader, never loses or repeats a byte.',
  ['inputs', 'programs'], 'every message, every nesting, every sequence of reader operations, every chunking of the input',
  'Isolation errors show only for specific mixes of lengths, peeks and nested readers; the tests use one-level well-formed payloads.',
  [S+'de/reader.rs', S+'de/de.rs', S+'impls/array.rs', S+'impls/tuple.rs'],
  [('nested reader limited by take', S+'de/reader.rs nested'), ('borrowing keeps the peeked byte', S+'de/reader.rs as_mut_read'),
   ('draining the rest of arrays and tuples', S+'impls/array.rs, '+S+'impls/tuple.rs')],
  state=[('peeked byte', 'byte read ahead by the end-of-input test', S+'de/reader.rs inner')],
  observe=['Reader::eof', 'Reader::nested', 'Reader::as_mut_read', 'merge_nested'])
p('C09', 'Merging updates just the fields present, the last one winning',
  'Merging encoded bytes into an existing value leaves every field that the bytes do not mention as it was; scalars and strings are replaced, nested values merged recursively, sequences extended, map entries merged by key, and a different enum variant replaces the old one. Merging two messages one after the other gives the same struct or map as merging their concatenation.',
  ['inputs', 'histories'], 'every prior value and every sequence of merged messages',
  'Merge semantics depend on the prior value; tests check about twenty fixed pairs.',
  [S+'de/de.rs', S+'impls', S+'types', D+'struct.rs', D+'enum.rs'],
  [('merge of each type', S+'impls, '+S+'types'), ('derived merge', D+'struct.rs merger, '+D+'enum.rs impl_deserialize')],
  observe=['Deserialize::merge'])
p('C10', 'Size caches never influence what is written',
  'The bytes written for a value are a function of its content alone: they do not depend on whether, when or in which enclosing value it was sized or serialised before, on mutations made since, or on it being a clone. Serialising does not change the value observably.',
  ['histories', 'inputs'], 'every history of sizing, serialising, mutating, cloning and nesting before a serialisation',
  'A stale cached length corrupts a length prefix only after particular histories; tests serialise freshly built values.',
  [S+'ser.rs', S+'rt/size_cache.rs', S+'types/list.rs', S+'types/map/map.rs', D+'struct.rs', D+'enum.rs', S+'log/loggers/buffer.rs'],
  [('caches refreshed before writing', S+'ser.rs steit_serialize/cache_size/compute_size_nested'), ('cache-free primitives', S+'impls/macros.rs')],
  state=[('size cache', 'per-value cached size, refreshed through a shared reference', S+'rt/size_cache.rs')],
  observe=['to_bytes', 'steit_serialize'])
p('C11', 'Replaying the change log reproduces the state',
  'After any sequence of mutations of a tracked state through its public mutators, at any depth, replaying the logged entries in order on a replica that started equal succeeds and leaves the replica equal to the original, however the log is cut into batches. Each mutation logs exactly the entries that describe it.',
  ['histories', 'programs'], 'every state type, every initial state, every finite history of setters, pushes, pops, swap-removes, inserts and removes at any depth, every batching',
  'The guarantee is over histories; tests replay a handful of one- or two-step logs on shallow states.',
  [S+'state.rs', S+'types/list.rs', S+'types/map/map.rs', S+'types/maybe.rs', S+'impls/box.rs', S+'rt/runtime.rs', S+'log/entry.rs', D+'field.rs', D+'struct.rs', D+'enum.rs'],
  [('mutators log an entry, then apply it', S+'types/list.rs, '+S+'types/map/map.rs, '+D+'field.rs setter'),
   ('replay dispatches on path and kind', S+'state.rs replay, handle of every state type')],
  state=[('log', 'entries recorded so far', S+'log/loggers/buffer.rs'), ('runtime path', 'where a value is mounted', S+'rt/node.rs')],
  observe=['BufferLogger::bytes', 'State::replay', 'PartialEq'])
p('C12', 'Replay, decoding and paused sections log nothing',
  'Replaying a log, decoding, merging and serialising never add entries to the log. Between pausing and as many resumes nothing is logged, pauses nest, a surplus resume is harmless, and value-building callbacks given to a mutator run with logging paused and leave the pause depth as it was.',
  ['histories'], 'every interleaving of pauses, resumes, mutations and replays',
  'Pause depth is history-dependent state; the tests never nest pauses.',
  [S+'rt/logger.rs', S+'rt/runtime.rs', S+'state.rs', S+'types/list.rs', S+'types/map/map.rs', D+'field.rs'],
  [('pause counter', S+'rt/logger.rs RuntimeLogger'), ('push_with / insert_with / set_*_with', S+'types, '+D+'field.rs')],
  state=[('paused', 'current pause depth of the shared logger', S+'rt/logger.rs')],
  observe=['Runtime::pause_logger', 'Runtime::unpause_logger', 'Runtime::log', 'State::replay'])
p('C13', 'Every value in a state tree knows its own path',
  'In any state built, decoded, replayed or mutated through the public interface, each tracked value is attached to the log of its root under exactly the path by which it is reached from the root (field number, element index, key, variant tag). The path of a nested, parent or sibling position is that of the position asked for.',
  ['histories', 'programs'], 'every reachable state tree after every history',
  'A stale path misdirects later entries only after moves such as swap-remove or variant changes followed by deeper mutations.',
  [S+'rt/node.rs', S+'rt/runtime.rs', S+'state.rs', S+'types/list.rs', S+'types/map/map.rs', S+'types/maybe.rs', S+'impls/box.rs', D+'struct.rs', D+'enum.rs', D+'field.rs'],
  [('with_runtime / set_runtime', 'every State impl'), ('path nodes', S+'rt/node.rs')],
  state=[('runtime', 'log handle and path of a tracked value', S+'rt/runtime.rs')],
  observe=['State::runtime', 'Runtime::path', 'Node::collect_values'])
p('C14', 'An entry that does not fit the state is rejected without effect',
  'Replaying an entry whose path leads nowhere in the state, or whose kind or key does not apply to the value at its path, returns an error, never panics, and leaves the state exactly as it was; earlier entries stay applied and later ones are not. Replaying on a value that is not a root is refused.',
  ['inputs', 'histories'], 'every state and every log entry',
  'Tests cover a few wrong kinds; the space of paths and kinds against state shapes is unbounded.',
  [S+'state.rs', S+'types/list.rs', S+'types/map/map.rs', S+'impls/macros.rs', S+'impls/box.rs', D+'struct.rs', D+'enum.rs'],
  [('handle of every state type', S+'types, '+S+'impls/macros.rs, '+D)],
  observe=['State::handle', 'State::replay'])
p('C15', 'The recorded log is an exact, ordered record of the entries',
  'The buffered log returns precisely the entries logged since it was last emptied, in order; its byte form decodes back to those entries and is what replay accepts, and taking or clearing it empties it. An entry keeps its kind, path, payload and key through encoding.',
  ['histories', 'inputs'], 'every sequence of log, read, take and clear operations and every entry',
  'Entries are themselves derived messages; tests look at the bytes of a few short logs.',
  [S+'log/entry.rs', S+'log/logger.rs', S+'log/loggers/buffer.rs', S+'log/loggers/writer.rs', S+'rt/runtime.rs', S+'rt/node.rs'],
  [('BufferLogger', S+'log/loggers/buffer.rs'), ('LogEntry constructors and codec', S+'log/entry.rs'), ('batch logging', S+'log/logger.rs log_multi')],
  state=[('entries', 'buffered entries', S+'log/loggers/buffer.rs')],
  observe=['BufferLogger::bytes', 'BufferLogger::pluck', 'BufferLogger::pluck_bytes', 'BufferLogger::clear'])
p('C16', 'A mutation that does not happen is not logged, and vice versa',
  'Popping from an empty list, removing at an index or key that is absent, and looking up change nothing and log nothing. Every mutation is logged before it is applied: when the log refuses the first entry of a mutation, the state is left as it was.',
  ['histories', 'fault_sequences'], 'every state, every ineffective operation, every point at which the log fails',
  'Log failures are never injected by the tests, and ineffective operations are tested on one or two states.',
  [S+'types/list.rs', S+'types/map/map.rs', D+'field.rs', S+'rt/runtime.rs', S+'rt/logger.rs'],
  [('guards and log-then-apply order', S+'types/list.rs, '+S+'types/map/map.rs, '+D+'field.rs setter')],
  observe=['List::pop', 'List::swap_remove', 'Map::remove', 'Logger::log'])
p('C17', 'Lists and maps behave as sequences and finite maps',
  'A tracked list behaves as a sequence under push, pop, swap-remove, indexing and iteration, and a tracked map as a finite map under insert, remove, lookup and iteration, with the values returned being those displaced or found. Built-in key types convert to field numbers and back without loss, and out-of-range numbers are rejected.',
  ['histories', 'inputs'], 'every history of container operations; every 32-bit key number',
  'Tests run short fixed scripts over at most five keys.',
  [S+'types/list.rs', S+'types/map/map.rs', S+'types/map/key.rs', S+'types/map/iter.rs', S+'types/maybe.rs'],
  [('container operations', S+'types/list.rs, '+S+'types/map/map.rs'), ('key conversion', S+'types/map/key.rs')],
  observe=['List', 'Map', 'MapKey'])
p('C18', 'Equality and hashing look at content alone',
  'Two values of a derived or container type are equal exactly when their (non-excluded) contents are, regardless of size caches, runtimes, paths and history; equality is reflexive and symmetric, and equal values hash alike. A clone equals its original.',
  ['inputs', 'histories'], 'every pair of values, with any caches and runtimes',
  'Tests compare a few values; that ignored internals never leak into equality or hashing needs all pairs and histories.',
  [S+'rt/size_cache.rs', S+'rt/runtime.rs', S+'types/map/map.rs', S+'types/maybe.rs', D+'struct.rs', D+'enum.rs', D+'field.rs'],
  [('always-equal caches and runtimes', S+'rt/size_cache.rs, '+S+'rt/runtime.rs'), ('derived eq and hash', D+'field.rs eq/hash')],
  observe=['PartialEq', 'Hash', 'Clone'])
p('C19', 'Constructors and setters touch exactly what they name',
  'A constructed or default value holds the default of every field and, for enums, the named (or tag-0) variant. Setting a field stores exactly the given value there and changes nothing else; setting a field of another enum variant switches to that variant with its remaining fields at their defaults.',
  ['inputs', 'programs'], 'every derived type, prior value and argument',
  'Generated per type by the derive macro; tests set a few fields of small structs.',
  [D+'struct.rs', D+'enum.rs', D+'field.rs', S+'types/maybe.rs'],
  [('derived constructors', D+'struct.rs ctor'), ('derived setters', D+'field.rs setter'), ('default variant', D+'enum.rs impl_default')],
  observe=['new*', 'set_*', 'set_*_with', 'Default'])
p('C20', 'Generated C# sources mirror the Rust message definitions',
  'For every set of message types whose C# names are distinct file names, when the generator reports success it has written exactly one C# class file per message that is reachable from the root and asked for, with the field numbers, names and types of the Rust definition (a Box is what it holds; generic messages keep their type parameters), has named each of them once, has touched no other file, and what it writes does not depend on the order in which messages are met.',
  ['programs'], 'every set of message types, every order in which they are linked, every setting',
  'Tests compare the output for one fixed set of types.',
  [S+'gen', S+'meta', D+'struct.rs', D+'enum.rs'],
  [('metadata and C# generator', S+'gen/generators/csharp.rs, '+S+'gen/generator.rs, '+S+'gen/gen_util.rs, '+S+'meta')])
p('C21', 'Invalid message definitions are rejected at compile time',
  'A definition with a missing, duplicate, reserved or too large field number, or an enum without a tag-0 variant, does not compile.',
  ['programs'], 'every message definition',
  'No compile-fail tests exist.',
  ['steit-derive/src'], [('tag checks', D+'tag.rs, '+D+'struct.rs parse_fields, '+D+'enum.rs parse_variants')])
p('C22', 'Concurrent users of one log never interleave inside an entry or batch',
  'When several threads mutate disjoint parts of the system that share one logger, each entry is recorded whole, and each thread\'s entries keep their order; a batch is recorded contiguously. (Pausing is a matter of the shared log: while one thread has paused it, entries of the others are left out too.)',
  ['schedules'], 'every interleaving of threads sharing a logger',
  'Tests are single-threaded.',
  [S+'rt/runtime.rs', S+'rt/logger.rs', S+'log/logger.rs'], [('mutex around the logger', S+'rt/runtime.rs log/log_multi')])
open('/verif/properties.jsonl', 'w').write(''.join(json.dumps(x) + '\n' for x in P))
