# --- ownership and value holders -------------------------------------------------------------------
P('C01', 'Smart pointers destroy each object exactly once, at the last owner',
  'For every sequence of creating, copying, moving, swapping, resetting, casting and aliasing shared, weak, unique and intrusive self-counted pointers (self-assignment and throwing constructors included), a managed object is destroyed exactly once and at the moment its last strong owner goes away, and its memory is never touched afterwards. A weak pointer yields a strong one exactly while the object is alive, and use counts, null tests and comparisons agree with the set of owners.',
  ['histories'], 'any interleaved history of ownership operations over a pool of owners and objects of several related types',
  'ShPtr/Pointers tests run a few straight-line scripts; leaks, double destruction and early destruction depend on the whole history of owners.',
  ['shared_ptr.h', 'unique_ptr.h', 'ref_count.h', 'self_counter.h', 'shared_ptr.cpp', 'Holder.h'],
  [('control-block counting', 'ref_count.h'), ('weak lock via try-add', 'shared_ptr.h'), ('intrusive counter', 'self_counter.h')],
  ['constructor/destructor log of managed objects', 'use_count/lock/expired results'])
P('C02', 'optional, variant and any keep value semantics under any history',
  'After any sequence of constructions, assignments (also from itself, from another alternative, or from a value whose copy throws), emplacements, swaps and resets, an optional, variant or any holds exactly the value a plain value model predicts, visitation reaches exactly the held alternative, wrong-type access is rejected, and every contained object is constructed and destroyed exactly once.',
  ['histories', 'inputs'], 'any operation history over several holders with tracked, throwing and trivially copyable payloads',
  'The optional and variant tests check individual conversions; lifetime errors only appear in particular sequences with aliasing or throwing payloads.',
  ['optional.h', 'variant.h', 'any.h', 'any.cpp', 'VariantMultidispatch.h', 'aligned_storage.h'],
  [('in-place storage with explicit destroy', 'aligned_storage.h'), ('type-indexed dispatch', 'variant.h'), ('type-erased holder', 'any.h')],
  ['get/is/visit results', 'live-object counter'])
# --- containers ------------------------------------------------------------------------------------
P('C03', 'Flat maps and sets behave as sorted associative containers',
  'For every sequence of operations, a flat map or flat set gives the same results, contents, order, lookups, bounds and comparisons as the standard associative container driven by the same operations, with and without a custom comparator and for move-only or throwing element types where the operation allows them.',
  ['histories'], 'any history of inserts (single, hinted, range), emplacements, erasures, lookups, copies, moves, swaps and comparisons',
  'FlatMap/FlatSet tests are fixed scripts over a few ascending keys.',
  ['collection/flat_map.h', 'collection/flat_set.h', 'collection/CollectionHelpers.h'],
  [('sorted vector with binary search', 'collection/flat_map.h')], ['iteration, find, lower/upper bound, return values'])
P('C04', 'Insertion-ordered and bidirectional maps stay consistent',
  'An insertion-ordered map or set iterates its elements in the order they were placed (positional inserts land before the given position) while lookups, duplicate rejection and removals behave as for a keyed container, across copies, moves, swaps, self-assignment and any mix of operations. A bidirectional map keeps its two sides exact mirrors of each other: every pair found from one side is found from the other, and removing or clearing by either side removes it from both.',
  ['histories'], 'any history of positional and keyed operations, copies and assignments',
  'OrderedMap/OrderedSet tests use one or two scripts per method and bimap has no test at all.',
  ['collection/ordered_map.h', 'collection/ordered_set.h', 'collection/bimap.h'],
  [('list plus sorted index of list nodes', 'collection/ordered_map.h'), ('two mirrored maps', 'collection/bimap.h')], ['iteration order', 'find/erase/insert results'])
P('C05', 'Fixed and intrusive sequences mirror a reference sequence',
  'An in-place vector holds exactly the pushed elements in order before, across and after the transition from inline to heap storage, survives copying, moving, self-assignment and throwing element copies without leaking or duplicating elements, and an intrusive list always enumerates exactly the linked nodes in order from both ends under any insertions and removals.',
  ['histories'], 'any operation history around the inline-capacity boundary, with tracked and throwing element types',
  'InplaceVector tests push a handful of ints; the inline-to-heap boundary with throwing or aliased elements is not sampled.',
  ['collection/inplace_vector.h', 'collection/IntrusiveList.h', 'collection/array.h', 'aligned_storage.h'],
  [('static part plus dynamic part', 'collection/inplace_vector.h'), ('circular doubly linked nodes', 'collection/IntrusiveList.h')], ['contents', 'live-object counter'])
P('C06', 'Caches never exceed capacity and evict in their declared order',
  'For every sequence of insertions, lookups and removals with any element sizes, a FIFO, LRU or two-queue cache never holds more than its capacity, returns for a key only the value last stored under it, reports its size and membership consistently, and evicts exactly the elements its policy names: oldest inserted, least recently used, or two-queue order.',
  ['histories'], 'any history of set/get/contains/remove/clear with arbitrary sizes, including zero and larger than capacity',
  'Cache tests run fixed scripts with unit sizes.',
  ['collection/QueueCache.h', 'collection/TwoQueueCache.h', 'collection/ICache.h', 'collection/DefaultCacheSizeMapper.h'],
  [('eviction loop', 'collection/QueueCache.h'), ('in/out/hot queues', 'collection/TwoQueueCache.h')], ['TryGet/Contains/GetSize/GetKeys'])
P('C07', 'Generic collections match their model and enumerators are snapshots',
  'Lists, sets, dictionaries, multisets and multidictionaries in all their storage flavours answer every query and mutation as the matching mathematical collection would, with elements enumerated forwards, in reverse and from a found key in their documented order. An enumerator, reversed view or find result obtained before a mutation keeps delivering exactly the contents at the time it was obtained, and copies of a collection are independent.',
  ['histories'], 'any history of mutations interleaved with long-lived enumerators over the collection',
  'Only a few collections have unit tests, and none keeps enumerators alive across arbitrary mutations.',
  ['collection/GenericList.h', 'collection/GenericSet.h', 'collection/GenericDictionary.h', 'collection/SortedMultiSet.h', 'collection/MultiMapDictionary.h', 'collection/ArrayList.h', 'collection/SortedSet.h', 'collection/OrderedSet.h', 'collection/FlatSortedSet.h', 'collection/MapDictionary.h', 'collection/OrderedDictionary.h', 'collection/FlatMapDictionary.h'],
  [('copy-on-write guarded by a weak holder', 'collection/GenericList.h'), ('equal ranges over multimap', 'collection/MultiMapDictionary.h')], ['enumeration contents', 'return values and exceptions'])
P('C08', 'Replaying observable collection notifications reproduces the contents',
  'For every observable list, set, dictionary, multiset and multidictionary, a listener that connects at any moment and applies each notification it receives (the initial state, then every change, in order) holds at every moment exactly the contents of the collection. Each effective mutation notifies exactly the changes it made, ineffective mutations notify nothing, and single-entry views report the presence or value of their key.',
  ['histories'], 'any mutation history with listeners connecting, disconnecting and mutating at arbitrary points',
  'No existing test replays notifications against contents.',
  ['collection/ObservableListWrapper.h', 'collection/ObservableSetWrapper.h', 'collection/ObservableDictionaryWrapper.h', 'collection/SortedObservableMultiSet.h', 'collection/MultiMapObservableDictionary.h', 'collection/ObservableSetEntry.h', 'collection/ObservableDictionaryKeyValue.h', 'ObservableValue.h'],
  [('mutation and notification under one lock', 'collection/ObservableListWrapper.h'), ('populator sends current state', 'collection/ObservableSetWrapper.h')], ['OnChanged notifications', 'contents'])
P('C09', 'Transactions are isolated, commit exactly their diff and revert cleanly',
  'Inside a transaction on a transactional list, set or dictionary every query answers as if the changes made so far were applied, while outside readers and their enumerators keep seeing the last committed state until commit. The diff describes exactly the change from the committed to the pending state (applying it to the old state yields the new one), commit publishes the pending state together with one notification carrying that diff, and revert or abandoning the transaction leaves the committed state untouched.',
  ['histories'], 'any history of transactions, nested enumerations, commits, reverts and abandonments, with listeners joining at any time',
  'TransactionalDictionary/Set tests cover chosen scripts; the list flavour has no test.',
  ['collection/TransactionalList.h', 'collection/TransactionalSet.h', 'collection/TransactionalDictionary.h', 'collection/TransactionHelpers.h', 'collection/TransactionalDictionaryKeyValue.h', 'collection/DiffEntry.h'],
  [('added/removed overlays', 'collection/TransactionalDictionary.h'), ('three-way merge enumerator', 'collection/TransactionHelpers.h'), ('copy-on-write holders', 'collection/TransactionalSet.h')], ['queries, enumerations, diffs, OnChanged payloads'])
P('C10', 'Enumerable combinators compute what their list definitions say',
  'For every finite sequence and every predicate or mapping, each lazy enumerable operation (filtering, mapping, concatenation, flattening, taking, skipping, reversing, folding, searching, counting, comparing, diffing, conversion, wrapping, joining and casting) delivers exactly the elements and results of the corresponding list function, in order, also when an enumerable is enumerated several times or only partially.',
  ['inputs', 'programs'], 'any finite input sequences and any composition of combinators',
  'Enumerable tests apply each helper to one or two literal vectors.',
  ['collection/EnumerableHelpers.h', 'collection/EnumerableWrapper.h', 'collection/EnumerableFromStlContainer.h', 'collection/EnumerableBuilder.h', 'collection/DataJoiner.h', 'collection/ForEach.h', 'collection/FuncEnumerator.h', 'collection/ListCaster.h', 'collection/SetCaster.h', 'collection/DictionaryCaster.h', 'collection/DictionaryKeysSet.h', 'collection/KeyValueEnumerableHelpers.h'],
  [('lazy enumerators', 'collection/EnumerableHelpers.h'), ('filtering wrapper with cached element', 'collection/EnumerableWrapper.h')], ['elements and results'])
P('C11', 'Range combinators compute what their list definitions say',
  'For every container and every composition of range adaptors (filter, transform, cast, take, drop, reverse, split, concatenation, zip, flatten, cycle and similar), iterating forwards, backwards where bidirectional, or by index where random access, delivers exactly the elements of the corresponding list computation, and the range algorithms return the results of their list definitions.',
  ['inputs', 'programs'], 'any containers and compositions of range adaptors with arbitrary movement of the cursor',
  'Range tests check literal pipelines moving forwards only.',
  ['collection/Range.h', 'collection/RangeBase.h', 'collection/ToRange.h', 'collection/iterators.h', 'collection/iterator_base.h', 'algorithm.h'],
  [('range adaptors over a common base', 'collection/Range.h')], ['elements and results'])
P('C12', 'Reference-counting collections count exactly',
  'In a reference-counting map, set or value the number of references to an entry always equals additions minus removals, the creating callback runs exactly on the transition from zero to one and the removing callback exactly on the transition back to zero, and an entry is visible exactly while its count is positive, even when callbacks throw.',
  ['histories'], 'any history of additions and removals over several keys, with throwing callbacks',
  'RefCounting tests cover one add/remove script per type.',
  ['collection/RefCountingMap.h', 'collection/RefCountingSet.h', 'collection/RefCountingValue.h', 'collection/RefCounter.h'],
  [('reference counters beside values', 'collection/RefCountingMap.h')], ['callback log', 'lookup results'])
P('C13', 'Byte views stay inside their data and share it',
  'Every byte array, byte view and typed view obtained by any chain of slicing, shifting, casting and copying denotes exactly the requested window of the original bytes, sees and makes changes to shared data, keeps it alive as long as an owning view exists, grows without losing content, and rejects any request that leaves the window.',
  ['histories', 'inputs'], 'any chain of slices and mutations with arbitrary offsets and sizes, including overflowing ones',
  'There is no test of byte arrays apart from incidental uses with in-range constants.',
  ['collection/ByteData.h', 'collection/BytesOwner.h'],
  [('offset and size checks', 'collection/ByteData.h'), ('life assurance of views', 'collection/BytesOwner.h')], ['contents, sizes and exceptions'])
# --- numbers and bits ------------------------------------------------------------------------------
P('C14', 'Bit-level readers and streams read back exactly the bits written',
  'Reading any sequence of bit fields of any widths from any bit position returns the big-endian value of exactly those bits, whatever was written to a bit stream in either byte order reads back unchanged, strings, arrays and deferred fields included, no neighbouring bit is changed, and reads or writes beyond the data are rejected instead of touching other memory.',
  ['inputs'], 'any byte buffers, bit offsets, widths and field sequences',
  'BitsGetter tests read a few constant patterns.',
  ['BitsGetter.h', 'io/BitStream.h', 'BitwiseOperations.h', 'IntegerBuilder.h', 'serialization/IntegerDeserializer.h'],
  [('bitwise accumulation across byte borders', 'BitsGetter.h'), ('bit insertion', 'io/BitStream.h')], ['values read', 'exceptions'])
P('C15', 'Big integers agree with arbitrary-precision arithmetic',
  'For all non-negative operands of any length, construction of big integers from numbers, bytes and text in any base, conversion back, addition, subtraction, multiplication, division, remainder, bitwise operations, shifts and comparison behave as exact integer arithmetic; a difference below zero, a zero divisor, malformed text and a conversion to a type that cannot hold the value are rejected.',
  ['inputs'], 'all operands up to several hundred digits and all operator chains',
  'Big numbers have no dedicated unit test.',
  ['BigNum.h', 'BigNum.cpp'],
  [('limb arithmetic with carries and signs', 'BigNum.h')], ['results as strings'])
P('C16', 'Decimal and fixed-point numbers obey exact arithmetic',
  'For all operands with representable results, decimals compare, add, subtract, multiply and negate as the exact numbers they denote, print in shortest form, parse back to an equal value and reject malformed text. Fixed-point numbers add, subtract and compare exactly, multiply, divide, convert and take roots to the nearest unit of their fraction in the documented direction, and keep three decimals when printed. Fractions computed from a division or parsed from digits are rounded to within one unit of the last kept digit and report an overflow exactly when the rounding reached one.',
  ['inputs'], 'all operands with different exponents, signs, trailing zeros and magnitudes',
  'Decimal tests check a table of examples; fixed-point numbers have none.',
  ['Decimal.h', 'Decimal.cpp', 'fixed_point.h', 'math.h', 'math.cpp'],
  [('mantissa alignment', 'Decimal.cpp'), ('rounding of fractions', 'math.cpp')], ['results and string forms'])
P('C17', 'Ranges, sizes, rectangles and integer helpers obey their algebra',
  'For all operands, numeric ranges, sizes, rectangles and versions satisfy the set, order and arithmetic laws they are named for (intersection, hull, containment, clamping, lexicographic order, text form of versions), averages and deviations match their definition, the integer and bit helpers (alignment of non-negative values, gcd, lcm, powers, bit tests and reversal) are exact including at the extremes of the integer types as long as value plus boundary is representable, and value mappers map each value in both directions by the first entry it fits.',
  ['inputs'], 'all operands including extremes of the integer types',
  'No tests, or a few examples, exist for these value types.',
  ['NumericRange.h', 'Rect.h', 'Size.h', 'Size.cpp', 'Version.cpp', 'math.h', 'Average.h', 'Accumulators.h', 'BitwiseOperations.h', 'IntegerSequenceGenerator.h', 'Mapper.h', 'ProgressValue.h', 'Random.cpp'],
  [('interval comparison', 'NumericRange.h'), ('integer helpers', 'math.h')], ['results'])
P('C18', 'Comparers are consistent total orders over members and collections',
  'Every comparer built from members, collections, pointers, negation or other comparers is a consistent ordering: equality, less-than and three-way results agree with each other and with the lexicographic comparison of the compared members or elements, for all values.',
  ['inputs', 'programs'], 'all pairs and triples of generated values and comparer combinations',
  'Comparers have only incidental tests.',
  ['compare/comparers.h', 'compare/MemberListComparer.h', 'compare/CollectionComparer.h', 'compare/MemberToValueComparer.h', 'compare/Comparable.h'],
  [('comparer adaptation', 'compare/comparers.h')], ['comparison results'])
# --- text ------------------------------------------------------------------------------------------
P('C19', 'Values survive conversion to text and back',
  'Every integer, enum value, flag set, UUID, byte sequence and size that is printed by the toolkit and parsed back by its counterpart gives an equal value, composites (collections, maps, pairs, tuples, optional and shared pointers) print every item once and in order, and text that is not the representation of any value of the type (junk, overflow, wrong length) is rejected with an error instead of producing a wrong value.',
  ['inputs'], 'all values of each type, and arbitrary or mutated text',
  'ToString/FromString/Hex/UUID/Version tests are tables of examples.',
  ['string/ToString.h', 'string/ToString.cpp', 'string/Hex.h', 'string/lexical_cast.h', 'UUID.h', 'UUID.cpp', 'Version.h', 'Version.cpp', 'EnumToString.h', 'EnumToString.cpp', 'string/HumanReadableSize.cpp', 'serialization/FloatString.cpp'],
  [('overflow-checked integer parsing', 'string/ToString.h'), ('hex digits', 'string/Hex.h')], ['round-trip equality', 'exceptions'])
P('C20', 'String formatting, parsing and splitting follow their definitions',
  'For all strings, formatting substitutes exactly the referenced arguments, pattern parsing recovers the arguments that produced a string, and splitting, joining, trimming, replacing, prefix/suffix tests, case conversion, multi-pattern search and numeric-range patterns give exactly the result of their textual definitions.',
  ['inputs'], 'all strings and patterns, including empty, overlapping and adjacent separators',
  'String tests are literal examples.',
  ['string/StringUtils.h', 'string/StringUtils.cpp', 'string/StringFormat.h', 'string/StringParse.h', 'string/AhoCorasick.h', 'string/RegexUtils.h', 'string/RegexUtils.cpp', 'string/StringReader.h', 'string/Comparers.h'],
  [('split by separator', 'string/StringUtils.h'), ('failure links', 'string/AhoCorasick.h')], ['resulting strings and matches'])
P('C21', 'String views agree with string operations',
  'For every string and every combination of positions, a string view answers searching, comparing, slicing, prefix and conversion requests exactly as the standard string with the same contents does, never looks outside its window, and the output string stream collects exactly the formatted pieces in order.',
  ['inputs'], 'all strings (embedded zeros included), positions and counts including npos and out-of-range',
  'StringView tests port a set of fixed examples.',
  ['string/string_view.h', 'string/string_view.cpp', 'string/string_stream.h', 'string/string_stream.cpp', 'CharArrayProxy.h'],
  [('bounds handling of positions', 'string/string_view.h')], ['results and exceptions'])
P('C22', 'Text encodings convert losslessly and malformed text is handled safely',
  'Every sequence of Unicode code points survives encoding to UTF-8 and back by characters, forwards and backwards, and every supported byte encoding decodes the bytes produced by encoding the same text; malformed or truncated input (overlong forms, surrogates, values above U+10FFFF) is rejected by UTF-8 iteration and replaced by conversion, never read outside the input and never turned into malformed UTF-8. Texts in different encodings compare by their characters.',
  ['inputs'], 'all code point sequences and all byte strings',
  'Utf8 tests use a few strings; the codecs of other encodings have no test.',
  ['string/Unicode.h', 'string/Unicode.cpp', 'string/Utf8IteratorRange.h', 'string/Utf8StringUtils.h', 'locale/StringCodec.h', 'locale/StringCodec.cpp', 'locale/Encoding.h', 'locale/Translit.cpp'],
  [('utf-8 state machine', 'string/Utf8IteratorRange.h'), ('code tables', 'locale/StringCodec.cpp')], ['decoded text', 'exceptions'])
P('C23', 'Time values convert, print and compare consistently',
  'For every representable moment and duration: conversion to broken-down time and back, to and from milliseconds, Unix, NTP and calendar-day forms, and ISO 8601 printing and parsing give the same moment; duration arithmetic, multiplication, division, rounding and comparison agree with exact integer arithmetic; calendar fields agree with the proleptic Gregorian calendar, broken-down times are ordered chronologically, and intervals intersect, unite and contain as sets of moments do.',
  ['inputs'], 'all moments in the supported range and all durations, including negative ones and leap years',
  'Time tests check literal examples.',
  ['time/Time.h', 'time/Time.cpp', 'time/BrokenDownTime.h', 'time/BrokenDownTime.cpp', 'time/NtpTimestamp.cpp', 'time/TimeInterval.h'],
  [('days-from-civil arithmetic', 'time/BrokenDownTime.cpp'), ('ISO 8601 parser', 'time/Time.cpp')], ['round-trip equality', 'fields'])
P('C24', 'Translations and locale codes select the declared entry',
  'A language code compares, prints and parses by its letters, and a translated string returns for every list of preferred languages the text stored for the first preferred language that has one, falling back as documented, whatever order translations were added in.',
  ['histories', 'inputs'], 'all sets of translations and preference lists',
  'TranslatedString tests use a couple of languages.',
  ['locale/LangCode.h', 'locale/LangCode.cpp', 'locale/LocaleString.h', 'string/TranslatedString.h', 'string/TranslatedString.cpp', 'string/TranslatedStringUtils.h'],
  [('ordered language lookup', 'string/TranslatedString.cpp')], ['selected translation'])
# --- io --------------------------------------------------------------------------------------------
P('C25', 'Byte streams behave as a seekable array of bytes',
  'Every in-memory, chunked, offset, bounded or buffered byte stream, under any sequence of reads, writes, seeks, resizes and tells of any sizes, transfers exactly the bytes an ideal byte array with a cursor would, never reads or writes outside its window, and rejects impossible seeks.',
  ['histories'], 'any operation history with any sizes and positions, over nested streams',
  'No unit test covers byte streams.',
  ['io/MemoryByteStream.h', 'io/ChunkedMemoryByteStream.h', 'io/ByteStreamWithOffset.h', 'io/ByteStreamWithOffsetAndSize.h', 'io/BufferedStream.h', 'io/IByteStream.h', 'io/IInputByteStream.h', 'io/IOutputByteStream.h', 'io/ByteStreamDataSource.h'],
  [('cursor arithmetic', 'io/MemoryByteStream.h'), ('chunk table', 'io/ChunkedMemoryByteStream.h')], ['bytes transferred', 'Tell/Size'])
P('C26', 'Circular and paged buffers are exact FIFOs of bytes',
  'For every history of pushes and pops (partial, zero, wrapping, restored), a circular buffer, shared circular buffer or paged buffer delivers exactly the bytes written, in order, without loss or duplication, and its used and free sizes always add up to its capacity.',
  ['histories'], 'any history of push/pop sizes around wrap and page boundaries',
  'CircularBuffer tests push fixed sizes.',
  ['io/CircularBufferBase.h', 'io/MemoryCircularBuffer.h', 'io/BithreadCircularBuffer.h', 'io/BithreadCircularBuffer.cpp', 'io/SharedCircularBuffer.h', 'io/PagedBuffer.h', 'io/PagedBuffer.cpp', 'io/ICircularBuffer.h'],
  [('read/write offsets with wrap', 'io/CircularBufferBase.h'), ('page list', 'io/PagedBuffer.cpp')], ['bytes delivered', 'sizes'])
P('C27', 'Data pipeline stages deliver every byte and packet once, in order',
  'Data buffers, packet buffers, aligners, packetizers, interceptors, mediators, consumers and readers, fed chunks of any sizes and drained by consumers that accept any part of what they are offered, forward exactly the bytes and packets put in, in order and grouped as declared, keep what was not accepted, and signal the end of data exactly once after everything was delivered.',
  ['histories'], 'any chunking of input and any pattern of partial consumption',
  'DataBuffer tests cover one or two fixed chunkings.',
  ['io/DataBuffer.h', 'io/PacketBuffer.h', 'io/DataAligner.h', 'io/DataPacketer.h', 'io/IDataSource.h', 'io/DataUtils.h', 'io/BufferedDataConsumer.cpp', 'io/BufferedDataSource.cpp', 'io/DataSourceReader.cpp', 'io/PipeReader.cpp', 'io/BufferedDataMediator.h', 'io/IntermediateDataBuffer.h', 'io/ByteArrayDataSource.h', 'io/PipeDataSource.cpp'],
  [('partial consumption contract', 'io/IDataSource.h')], ['bytes and packets delivered'])
P('C28', 'Serialized data survives a round trip and bad input is rejected cleanly',
  'Every value that can be serialized (integers, floating point numbers, text, binary data, enums, optionals, pairs, containers, dictionaries, variants, any, times, composites, objects created by a factory), written through an object stream into a settings value tree and read back, also over another value, gives an equal value; and reading from a mistyped, incomplete or altered tree (a value of another type, an integer that does not fit, a missing member, a short pair, an unknown variant index, class or key, malformed hex or number text) ends with an exception or a complete value of the type, never with a crash or a silently truncated value.',
  ['inputs'], 'all value trees, serializable types and composites, and arbitrary or mutated trees',
  'Serialization has no dedicated unit test.',
  ['serialization/Serialization.h', 'serialization/Serialization.cpp', 'serialization/SettingsValue.h', 'serialization/Composite.h', 'serialization/SerializationHelper.h', 'serialization/FloatString.cpp'],
  [('typed property trees', 'serialization/Serialization.h')], ['round-trip equality', 'exceptions'])
P('C29', 'Compression decodes to exactly what was encoded',
  'For every sequence of symbols under any probabilities kept in step on both sides, what the arithmetic coder wrote, followed by any bits, is decoded into the same symbols; and for every byte sequence and every PPM dictionary, the compressed data are decompressed into exactly the original, however the data come in and whatever part of the output the consumer accepts at a time.',
  ['inputs'], 'all symbol sequences and adaptive models',
  'There is no test of compression.',
  ['compression/ArithmeticCoder.h', 'compression/ArithmeticDecoder.h', 'compression/ICompressionDictionary.h', 'compression/ICompressionEngine.h', 'compression/ppm/PpmModel.h', 'compression/ppm/PpmCompressor.h', 'compression/ppm/PpmDecompressor.h', 'compression/ppm/PpmDictionaryBuilder.h'],
  [('interval narrowing and carry handling', 'compression/ArithmeticCoder.h')], ['decoded symbols'])
P('C30', 'Functions, binders and deferred actions pass arguments and run once',
  'Function objects, binders, member binders, lazies, action transactions, scope guards and tokens call exactly the target they were built from, with exactly the bound and passed arguments in their declared positions, return its result, and run deferred clean-up exactly once at the declared moment, in declared order, for every composition, copy and move of such objects.',
  ['programs', 'histories'], 'any composition of binders and any history of copies, releases and exceptions',
  'Bind/Function tests cover literal cases.',
  ['function/function.h', 'function/bind.h', 'function/functional.h', 'lazy.h', 'ScopeExit.h', 'ActionTransaction.h', 'ActionTransaction.cpp', 'Token.h', 'MultiToken.h', 'FunctionToken.h', 'ObjectPool.h', 'Finalizer.h'],
  [('type-erased invokables', 'function/function.h'), ('argument chooser', 'function/bind.h')], ['call log'])
# --- concurrency -----------------------------------------------------------------------------------
P('C31', 'Signals deliver to connected handlers only, in order, each exactly once',
  'Every invocation of a signal calls each handler connected at that moment exactly once, in connection order, with the invocation arguments, a throwing handler prevents no other; a handler is never called after its disconnection completed, connecting delivers the current state exactly once when asked, and connections may be made, dropped and re-made from inside handlers or after the signal died.',
  ['histories', 'schedules'], 'any history of connect, disconnect, invoke, destroy, from outside and inside handlers and on several threads',
  'Signal tests use fixed scripts and real-time sleeps.',
  ['signal/signals.h', 'signal/signal_policies.h', 'signal/signal_policies.cpp', 'signal/signal_connector.h', 'thread/TaskLifeToken.h', 'thread/TaskLifeToken.cpp'],
  [('handler list under the policy mutex', 'signal/signals.h'), ('life token of a handler', 'thread/TaskLifeToken.cpp')], ['handler call log'])
P('C32', 'Task executors run every accepted task exactly once in order',
  'Tasks submitted to a single-threaded executor run exactly once, one at a time, in submission order, whichever threads submit them and whichever tasks throw; and destroying a thread executor first completes what was accepted; tasks accepted by a thread pool run exactly once (unless the pool is destroyed first), never more of them at once than it may have threads, a pool with a free thread never refuses a task and a wait for a place ends when there is one; a task whose life token was released does not start afterwards and release waits for a running one; the future of an asynchronous function gets its result, its exception, or breaks when its token was released.',
  ['schedules', 'histories'], 'all schedules of submitting, running, releasing and destroying threads within the explored depth',
  'Thread tests sample one schedule.',
  ['thread/ThreadTaskExecutor.cpp', 'thread/ThreadlessTaskExecutor.cpp', 'thread/ThreadPool.cpp', 'thread/TaskLifeToken.cpp', 'function/AsyncFunction.h', 'function/CancellableFunction.h'],
  [('queue under mutex with condition', 'thread/ThreadTaskExecutor.cpp'), ('life token guard', 'thread/TaskLifeToken.cpp')], ['task execution log'])
P('C33', 'Timers fire each task once per due time, in due order, never after release',
  'A timer runs each one-shot task once and not before its due time, periodic tasks once per period, tasks in the order of their due times (submission order when equal), keeps running after a task throws, never runs a task whose token was released (releasing waits for a running one), and its destruction runs what is due; a periodic task becomes due again a period after it was started; an execution deferrer runs only what was deferred last, not before its timeout, and nothing which was replaced in time or cancelled.',
  ['schedules', 'histories'], 'all schedules and clock readings within the explored depth, on a virtual clock',
  'Timer tests depend on real time and run a few tasks.',
  ['timer/Timer.h', 'timer/Timer.cpp'],
  [('ordered queue of due times', 'timer/Timer.cpp')], ['execution log with virtual time'])
P('C34', 'Cancellation is never lost and waits end when they should',
  'Once a cancellation token is cancelled, every wait, sleep and registration that uses it alone or through a joined or timed token ends promptly and reports cancellation, a registered handler runs exactly once or is unregistered, never both, reset allows reuse, and without cancellation a wait ends only by its broadcast or timeout.',
  ['schedules', 'histories'], 'all schedules of waiters, cancellers, broadcasters and timeouts within the explored depth',
  'Cancellation has only incidental tests.',
  ['thread/CancellationToken.h', 'thread/CancellationToken.cpp', 'thread/ICancellationToken.h', 'thread/JoiningCancellationToken.h', 'thread/TimedCancellationToken.h', 'thread/CancellationRegistrator.h'],
  [('handler slot under mutex', 'thread/CancellationToken.cpp')], ['wait results', 'handler calls'])
P('C35', 'Futures receive the promised result exactly once and wake every waiter',
  'A future becomes ready exactly when its promise is satisfied or broken, every waiter and continuation then observes that same value or exception exactly once, waits with a timeout end no later than it, and setting a result twice, retrieving a future twice or using an invalid future is refused.',
  ['schedules', 'histories'], 'all schedules of producers, waiters and continuations, and all histories of moves and swaps',
  'Future tests run one schedule with sleeps.',
  ['future.h', 'signal/SignalToFuture.h', 'function/AsyncFunction.h'],
  [('shared state under mutex', 'future.h')], ['results and exceptions'])
P('C36', 'Concurrent buffers and pipes transfer every byte once, in order',
  'Data buffers, packet buffers and bithread, buffered and synchronized pipes used by one reader and one or more writers on different threads, and bithread circular buffers whose positions are changed under the users\' lock while the bytes are copied outside it, deliver every byte or packet accepted exactly once, unchanged and in the order of each writer, writes of one call to a synchronized pipe staying together; what a buffer drops on overflow is counted or dropped as whole packets; readers and writers wait only while the buffer is empty or full and wake up on data, space, the end of data, an exception or the cancellation or time-out of their token; clearing a buffer in use is refused or complete.',
  ['schedules'], 'all schedules of producer and consumer within the explored depth, with any chunk sizes',
  'BithreadPipe tests sample a real-time schedule.',
  ['io/BithreadCircularBuffer.cpp', 'io/BithreadPipe.h', 'io/SynchronizedPipe.h', 'io/SharedCircularBuffer.h', 'io/DataBuffer.h', 'io/PacketBuffer.h', 'io/BufferedPipe.cpp'],
  [('mutex and conditions around positions', 'io/BithreadCircularBuffer.cpp')], ['bytes delivered', 'blocking'])
P('C37', 'Reference counts and observables stay exact under concurrent use',
  'When several threads copy, drop, lock and downgrade pointers to the same object, the object is destroyed exactly once after the last owner and never revived; when several threads mutate an observable or transactional collection, every listener sees the changes in one order consistent with the contents, and transactions never overlap.',
  ['schedules'], 'all schedules of the participating threads within the explored depth',
  'No existing test explores schedules.',
  ['shared_ptr.h', 'ref_count.h', 'self_counter.h', 'collection/ObservableListWrapper.h', 'collection/ObservableSetWrapper.h', 'collection/TransactionalDictionary.h', 'collection/TransactionalList.h', 'ObservableValue.h'],
  [('atomic counters', 'ref_count.h'), ('collection mutex', 'collection/ObservableListWrapper.h')], ['destruction log', 'notification order'])
P('C38', 'Synchronization primitives keep their contracts under every schedule',
  'Mutexes and spinlocks exclude and mutexes may be re-entered; condition waits release and re-acquire the mutex and see every broadcast made while waiting; semaphores let in exactly as many as they were signalled; a barrier lets nobody pass before the required number arrived (spurious wakeups included) and names one thread of each round; synchronized values are changed and read as a whole; singletons are created exactly once and thread-local values once per thread; a thread runs its function once and its destruction cancels it and waits for it; asynchronous streams write everything accepted, as if in order, before a sync or their destruction ends.',
  ['schedules'], 'all schedules within the explored depth',
  'Tests sample single schedules, or none.',
  ['thread/Thread.h', 'thread/ConditionVariable.h', 'thread/Barrier.h', 'thread/SyncValue.h', 'thread/posix/PosixThreadEngine.cpp', 'thread/posix/PosixConditionVariable.cpp', 'thread/posix/PosixSemaphore.cpp', 'thread/atomic/Spinlock.h', 'thread/posix/ThreadLocal.h', 'Singleton.h', 'SafeSingleton.h', 'PhoenixSingleton.h', 'io/AsyncByteStream.cpp'],
  [('recursive mutex and unlock-during-wait', 'thread/posix/PosixConditionVariable.cpp')], ['observed interleavings'])
P('C39', 'Log messages reach every sink once, in order, filtered by level',
  'A message logged through a logger at a level not below the level in effect when the message was started (the logger\'s own level, or the global one if it has none) reaches every sink present when the message is complete exactly once, with its text, logger name, level and highlight flag, the messages of one thread in the order they were logged, also when other sinks throw, log, come or go; messages below the level reach none. Levels, backtraces and highlights configured by name apply to all existing and future loggers of that name and to no others, without changing what was not configured; hidden duplicates are shown once and counted in the next summary.',
  ['histories', 'schedules'], 'all histories of loggers, sinks, levels and messages; all schedules of threads which log while sinks and levels change',
  'There is no logging test.',
  ['log/Logger.h', 'log/Logger.cpp', 'log/LoggerStream.h', 'log/LoggerStream.cpp', 'log/LoggerMessage.cpp', 'log/NamedLoggerParams.h'],
  [('snapshot of the sinks per message', 'log/Logger.cpp'), ('registry of settings by name', 'log/Logger.cpp')], ['messages received by each sink'])
P('C40', 'A command line runs the first matching handler and completes what can follow',
  'Execute of a command calls exactly one handler, the first registered (of those not yet unregistered) whose words are followed by values of its argument types (strings with backslash escapes, integers, booleans, enums, optionals, bracketed lists) separated by single spaces and nothing else, with exactly these values, and returns true; it calls nothing and returns false if no handler matches, and calls nothing and returns true for commands starting with #. Exceptions of handlers reach the caller. Handlers may execute further commands and unregister themselves or others while they run. Complete adds, for every handler whose earlier words and arguments are in the command, the missing rest of its next word, or of every candidate value (custom candidates, boolean and enum names) which begins with what was typed, escaped, followed by a space, and keeps what the result set contained. Once the token of a handler is reset the handler is not running, is never called or asked for completions again, and what it captured is destroyed, whatever other threads register, execute or complete meanwhile.',
  ['histories', 'schedules'], 'all sets of handlers, commands and histories; all schedules of threads which register, execute, complete and remove',
  'The test executes some commands with fixed handlers from one thread.',
  ['CmdLine.h', 'CmdLine.cpp'],
  [('argument reader', 'CmdLine.h'), ('registration and removal', 'CmdLine.cpp')], ['handlers called, their arguments, completion sets'])
P('C41', 'Checks refuse exactly what is invalid; failures, casts, factories stay precise',
  'Overflow and range checks throw exactly when the mathematical sum does not fit or the index is outside, for every combination of integer types accepted, and say so; required pointers and values are passed through or refused naming the expression. Exceptions keep their type, members and message, carry the file, line and function that threw them, and wrapping, rethrowing and storing them keeps all messages from the outside in and the original place; other exceptions pass. Dynamic casters agree with dynamic_cast for pointers, references, constants and shared pointers in every hierarchy, checked ones throw for wrong types only and keep ownership. Visitors call the overload of the visited class, or of the base; dispatch by tags calls exactly the registered entry, or handles an unknown tag as declared. Factory contexts create the class registered under a name there or in the nearest base context, refuse unknown and repeated names and objects of other classes, and leak nothing. Creators, builders, storages, erased types and object tokens neither share, lose nor leak the objects they hold. Progress of a part is scaled to the whole.',
  ['inputs', 'histories'], 'all pairs of values of the integer types; all nestings of wrappers; a diamond of classes with all pairs of casts; all tags; all histories of contexts',
  'The tests check single examples of these, or nothing.',
  ['exception.h', 'ExceptionPtr.h', 'dynamic_caster.h', 'IVisitor.h', 'GenericEntityFactory.h', 'factory/Factory.cpp', 'factory/Factory.h', 'Creators.h', 'TypeErasure.h', 'CloneBuilderBase.h', 'MultiStorageFor.h', 'ObjectToken.h', 'AggregateProgressReporter.h'],
  [('overflow check', 'exception.h'), ('lookup through base contexts', 'factory/Factory.cpp'), ('visitor accept', 'IVisitor.h')], ['accepted and refused values', 'messages', 'live objects'])
