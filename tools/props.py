PROPS = []


def P(**kw):
    PROPS.append(kw)


TRUST = ('Trusts the clang 18 front end and scalar passes, the contracts of the C++ standard library, and the '
         'analyser in this repository. ')

P(id='P01', title='Alphabets and decoding tables are inverse and match RON',
  statement='Every symbol the library writes (base64 and hex digits, the spec, UUID, atom, term and frame punctuation) '
  'is the one RON prescribes for its value, and the decoding tables map each symbol back to exactly that value. The '
  'strict base64 and hex decoders reject every other byte, and the base64 alphabet is in byte order, so text order is '
  'numeric order.',
  over=['inputs'], quant='all 256 byte values, all table entries, all enumerators',
  why='tests exercise a few UUIDs and op texts; a wrong entry for a rarely used symbol passes all of them',
  files=['ron/uuid.cc', 'ron/const.hpp'],
  mech=[('ABC, ABC64, ABC16, IS_BASE', 'ron/uuid.cc'), ('*_PUNCT, enums, chr2term', 'ron/const.hpp')],
  technique='constant-table analysis of the IR against the RON alphabets, entry by entry',
  note=TRUST + 'Exhaustive over all entries.')

P(id='P02', title='UUID text coding is bit-faithful and order is that of the words',
  statement='Writing a UUID emits each of its payload, variety and version bits as its own base64 digit or punctuation '
  'symbol, dropping only trailing zero digits and an all-zero origin, so different UUIDs get different texts; a reader '
  'given the digits rebuilds exactly those bits. UUIDs and their words compare by value first and origin second, as '
  'unsigned numbers, and all six comparison operators agree with that one order.',
  over=['inputs'], quant='all 2^128 UUIDs, every text length 1..10 per word, all operand orderings',
  why='unit tests round-trip a dozen UUIDs; the claim is about every bit position and every length',
  files=['ron/uuid.cc', 'ron/uuid.hpp'],
  mech=[('Word::write_base64, Uuid::write_base64', 'ron/uuid.cc'), ('Word(flags, Slice), comparison operators', 'ron/uuid.hpp')],
  technique='bit-provenance abstract interpretation of LLVM IR plus decision tables over orderings',
  note=TRUST + 'Covers all inputs; the reading constructor is taken under its contract (base64 characters only).')

P(id='P03', title='Store keys are an order-preserving bijection at the database edge',
  statement='The 128-bit store key holds form, origin and value without overlap, its stored byte order is the numeric '
  'order, and the id and form read back from a key are those it was made from. Every key handed to the database, every '
  'key read from an iterator row, and the form the merge operator reduces by use that same coding; the end marker is '
  'above every key.',
  over=['inputs'], quant='all ids, forms and key pairs; all call sites that pass a key to the database',
  why='store tests use a handful of keys whose confused bits happen to be zero',
  files=['db/key.hpp', 'db/key.cc', 'db/rocks_store.cc'],
  mech=[('Key', 'db/key.hpp'), ('Write/Read/SeekTo/Iterator::key/merge operator', 'db/rocks_store.cc')],
  technique='bit-provenance abstract interpretation of LLVM IR, across the database call boundary',
  note=TRUST + 'Covers all inputs and all compiled call sites.')

P(id='P04', title='Atoms, byte ranges and slices keep every bit of what they pack',
  statement='An integer, float, string or UUID atom keeps its value, its byte range and its type tag in separate bits, '
  'and each accessor returns what was packed; event and derived variants of an id change its version only. Ranges and '
  'slices follow interval arithmetic: sub-slices, consumed and remaining parts, and the string copied from a slice are '
  'exactly the bytes between begin and end.',
  over=['inputs'], quant='all values, offsets below 2^30, all operations',
  why='tests look at a few small ranges; overlapping fields only show with large offsets or values',
  files=['ron/uuid.hpp', 'ron/slice.hpp'],
  mech=[('Atom, Word, Uuid', 'ron/uuid.hpp'), ('Range, Slice', 'ron/slice.hpp')],
  technique='bit provenance and linear-form dataflow over LLVM IR',
  note=TRUST + 'Covers all inputs; offsets under the documented 2^30 frame limit.')

P(id='P05', title='Persisted form and mapper codes are stable and mutually inverse',
  statement='The one-byte code of each data form, which is stored in database keys, is fixed; its name UUID spells the '
  'form name, code and name map to each other, and the mappers are numbered and named likewise. Unknown names give the '
  'zero form (or "no mapper") and unknown codes the error UUID; no code makes a lookup read outside its table.',
  over=['inputs'], quant='all 256 codes, all names, all other UUIDs',
  why='tests use three forms; renumbering or a table overrun stays invisible until old data is read',
  files=['ron/form.hpp', 'db/const.hpp'],
  mech=[('FORMS, UUID2FORM, uuid2form, form2uuid', 'ron/form.hpp'), ('MAP_IDS, map2uuid, uuid2map', 'db/const.hpp')],
  technique='constant propagation through the lookups for every code; initialiser analysis',
  note=TRUST + 'Exhaustive over codes; std::unordered_map by contract.')

P(id='P06', title='Status codes are distinct, self-naming, and decide success alone',
  statement='Every predefined status has its own code that spells its name, all except OK lie in the error space, and a '
  'status counts as a failure exactly when its code lies there. Comparing statuses compares whole codes, attaching a '
  'comment keeps the code, and the early-return helper passes failures on unchanged and only failures.',
  over=['inputs'], quant='all predefined codes and all 128-bit codes',
  why='two equal or mistyped codes pass every test that only checks success',
  files=['ron/status.hpp', 'ron/status.cc'],
  mech=[('Status', 'ron/status.hpp'), ('code table', 'ron/status.cc')],
  technique='initialiser analysis and predicate-partitioned dataflow over LLVM IR',
  note=TRUST + 'Covers all codes.')

P(id='P07', title='Hybrid timestamps keep calendar fields in disjoint, ordered bit fields',
  statement='A timestamp word holds month count since 2010, day, hour, minute, second and 100-nanosecond fraction in '
  'disjoint bit fields from most to least significant, taken from the UTC calendar of the given instant, so later '
  'instants give greater words. The current time is built from one wall-clock reading, microseconds scaled to '
  'nanoseconds.',
  over=['inputs'], quant='all instants between 2010 and 2350',
  why='no test compares timestamps across field boundaries',
  files=['ron/uuid.cc'], mech=[('Uuid::HybridTime, Uuid::Now', 'ron/uuid.cc')],
  technique='bit-provenance abstract interpretation under the struct tm contract',
  note=TRUST + 'Assumes the C library contract for gmtime and gettimeofday.')

P(id='P08', title='UTF-8 and UTF-16 converters agree with Unicode for every codepoint',
  statement='Encoding a Unicode codepoint to UTF-8 or UTF-16 yields exactly the sequence the standard prescribes, with '
  'the right length and all bits in place, and decoding a well-formed sequence yields the codepoint back. Inputs the '
  'decoders consume are never read past their end, and two-way conversion between UTF-8 and UTF-16 text loses nothing, '
  'supplementary planes included.',
  over=['inputs'], quant='all codepoints up to U+10FFFF, all sequence lengths',
  why='tests convert a few words of Russian text; planes, length boundaries and surrogates are a bit-level claim',
  files=['ron/encdec.hpp'],
  mech=[('utf8append, utf8read, utf16append, utf16read', 'ron/encdec.hpp'), ('utf8esc_append', 'ron/encdec.hpp')],
  technique='symbolic-bit abstract interpretation of LLVM IR with exhaustive tabulation of the extracted expressions',
  note=TRUST + 'Covers all inputs.')

P(id='P09', title='SHA2 hash text coding is faithful, complete and compared bit by bit',
  statement='A 256-bit hash written in base64 or hex and read back in the same coding is the same hash, every bit of '
  'every symbol in place; a shortened hash keeps the bits its symbols spell and knows how many bits it has. Two hashes '
  'match when and only when all the bits known to both are equal, and only texts made of symbols of the alphabet are '
  'accepted as hashes.',
  over=['inputs'], quant='all hashes, all prefix lengths, all bit positions',
  why='tests look at one or two hashes; a lost trailing bit or a mask off by one is invisible to them',
  files=['ron/hash.hpp', 'ron/hash.cc', 'ron/encdec.hpp'],
  mech=[('SHA2', 'ron/hash.hpp'), ('encode, decode', 'ron/encdec.hpp')],
  technique='bit-provenance abstract interpretation of LLVM IR, symbol by symbol',
  note=TRUST + 'Covers all inputs.')

P(id='P10', title='Numbers in a frame are read exactly, and the 64-bit range is judged exactly',
  statement='An integer is read as the very number its sign and digits say, for every 64-bit integer down to the least one; '
  'a text of digits is judged to be over the range exactly when it has more than 19 digits or its number is beyond the '
  'limit of its sign. The text of a float is converted whole, as a double, without leaving its buffer, for all lengths '
  'up to the limit of 24. UUIDs and strings come out as they are, a char of a span as a string of its own, and looking at '
  'a value never changes the op.',
  over=['inputs'], quant='all texts of 1..24 digits with either sign or none; all float texts of 1..24 bytes; all UUIDs and chars',
  why='tests read a handful of small numbers; the limits, the least integer and the longest floats are single points among 2^64',
  files=['ron/text.cc', 'ron/text.hpp', 'ron/uuid.hpp'],
  mech=[('Cursor::ParseInteger', 'ron/text.cc'), ('Cursor::int_too_big', 'ron/text.cc'), ('Cursor::ParseFloat', 'ron/text.cc'),
        ('Cursor::ParseAtom, Cursor::atom', 'ron/text.hpp')],
  technique='abstract interpretation of LLVM IR with integer linear forms over digit intervals; the texts are cut into classes '
  'where they part from the limit',
  note=TRUST + 'strtod is trusted to convert correctly. That the reader applies the range test where it should is part of P17.')

P(id='P11', title='An op\'s Merkle hash covers the op, its history and nothing else',
  statement='The hash of an op is SHA-512/256 over, in this order: its id, the hash of the previous op of the yarn, the '
  'id it refers to, the hash of that op, and every value with its type (UUIDs whole, numbers by value, strings by '
  'length and text), never where a value sits in the frame. The hash of a pair is the digest of the first hash then '
  'the second, and the hash of a UUID that of its 16 big-endian bytes; computed hashes are fully known.',
  over=['inputs'], quant='all ids, hashes and values; value lists of every type combination up to three values',
  why='tests hash one op; uncovered or position-dependent input only shows as two histories sharing or not sharing a hash',
  files=['ron/hash.hpp'],
  mech=[('WriteOpHashable, hash_op, SHA2::OpMerkleHash, MerklePairHash, SHA2(Uuid)', 'ron/hash.hpp')],
  technique='abstract interpretation of LLVM IR recording the exact byte sequence fed to an uninterpreted digest',
  note=TRUST + 'Value lists of 0..3 values in all type combinations plus one of 6 values; Botan\'s SHA-512/256 and the '
  'text reader are taken as given operations.')

P(id='P12', title='Chain metadata follows the op graph at every step',
  statement='Taking the next op of a yarn makes its id current and the former one the yarn-previous id, keeps the chain '
  'exactly when the op refers to that previous op (same author and time) and else starts a chain named by the op, '
  'takes type and object from the op referred to, and hashes over the previous and the referred hash. A root op starts its '
  'own object and chain; next ops and check records are recognised exactly by version, author, order and reference.',
  over=['inputs', 'histories'], quant='all ids in every order relation, all hashes, aliased or separate referred metadata',
  why='the tests walk one short chain; a wrong field shows only in yarns that cross or branch',
  files=['ron/opmeta.hpp'],
  mech=[('OpMeta: constructor, Next, is_next, is_check, is_head, chain_id', 'ron/opmeta.hpp')],
  technique='decision tables over orderings of the ids, with bit-provenance values of every field (LLVM IR dataflow)',
  note=TRUST + 'Per step, so it holds for histories of any length; relies on the asserted preconditions (same author, '
  'increasing ids).')

P(id='P13', title='Merging states is idempotent, commutative and keeps every op once',
  statement='Merging sorted LWW, yarn, matrix or metadata inputs yields each distinct op exactly once, in ascending id '
  'order, however the ops are spread over, repeated in and ordered among the inputs. Merging RGA states and patches '
  'yields the causal tree depth first with newest children first, each op once, and reports pieces whose parent is '
  'missing; log merges concatenate, and MAX keeps the header and the single greatest value by type, value and id. '
  'The form alone chooses the rule: forms without a reducer are refused and write nothing.',
  over=['inputs', 'histories'], quant='all ids in every order, distributions of up to 6 ops over up to 7 inputs, all causal '
  'trees of up to 4 ops split between up to 3 inputs, all 256 form codes',
  why='reducer tests merge a few hand-made states; convergence needs every interleaving of ids and every overlap',
  files=['rdt/rdt.hpp', 'rdt/merge.hpp', 'rdt/lww.hpp', 'rdt/rga.hpp', 'rdt/max.hpp', 'rdt/log.hpp', 'rdt/mx.hpp',
         'rdt/meta.hpp'],
  mech=[('MergeCursor', 'rdt/merge.hpp'), ('RGArrayRDT::Merge', 'rdt/rga.hpp'), ('MaxRDT::Merge', 'rdt/max.hpp'),
        ('MasterRDT::Merge', 'rdt/rdt.hpp')],
  technique='abstract interpretation of LLVM IR over symbolic ids: every comparison decided by an order table, outputs '
  'compared with the set-theoretic merge',
  note=TRUST + 'Ids are symbolic, so each scenario covers all id values in that order; sizes are bounded as stated. RGA '
  'merges of more than 3 inputs are refused by the library (documented limit).')

P(id='P14', title='What the text builder writes reads back as the same ops',
  statement='Ids, references, values and terminators of appended ops are written so that the reader restores them from its '
  'defaults: parts are left out only where the reader fills in the same. An op joins a span only if it continues the '
  'previous one: next id, referring to it, same terminator, one more character or the same UUID. UUIDs that look like '
  'numbers are marked, integers are written in full, floats with 17 digits and never as integers. Ending a chunk or '
  'releasing the frame terminates the open op as asked, and the next frame starts afresh. (NUL characters and '
  'non-finite floats excluded.)',
  over=['inputs', 'histories'], quant='all builder states (no op, op, open span of either kind) x all ops of 0..4 values of every '
  'type x all relations of id and reference to the previous op; is_ambiguous for all texts of 1..12, 20 and 23 chars',
  why='what is left out depends on the previous op, the span state and the terminator: the combinations are many and tests '
  'build a few frames',
  files=['ron/text.hpp', 'ron/text-builder.cc', 'ron/op.hpp', 'ron/uuid.cc', 'ron/slice.hpp'],
  mech=[('Builder::AppendOp', 'ron/text.hpp'), ('Builder::EndChunk', 'ron/text.hpp'), ('Op::WriteAtoms', 'ron/op.hpp'),
        ('Uuid::is_ambiguous', 'ron/uuid.cc')],
  technique='induction by abstract interpretation of LLVM IR: every builder state x op x relation is written to symbolic text, '
  'which a model of the reader reads back and compares',
  note=TRUST + 'The reader is modelled by its defaults and grammar, which P17 checks against the parser; printf number '
  'formats are trusted to print what C says.')

P(id='P15', title='The merge front end picks one form and replaces results on success only',
  statement='The form of a merge is the one name the inputs refer to; inputs naming two different forms are refused, '
  'event references (patches) and exhausted inputs do not count, and with no name the merge is unnamed. The result frame '
  'is replaced once by a successful merge and left untouched by a failed one, whose error is passed on. Merging frames '
  'reads every frame from its first op, in the given order, leaving out empty ones.',
  over=['inputs'], quant='up to three inputs with references of every kind in every order; every reducer outcome',
  why='tests merge matching states only; a swallowed error or a clobbered result shows in the mixed case',
  files=['rdt/rdt.hpp'], mech=[('GetForm, MergeCursors, MergeFrames', 'rdt/rdt.hpp')],
  technique='abstract interpretation of LLVM IR over symbolic frames, result writes and status codes tracked',
  note=TRUST + 'Frames are symbolic; the text reader is taken as a given operation.')

P(id='P16', title='The store writes, reads and merges rows whole and reports every error',
  statement='A write hands the database one merge of the whole change into the row of its key in this branch, a batch all '
  'its records in one atomic write, a read returns the whole row or nothing, and the merge rule reduces the old row and '
  'all readable changes in order, failing when reduction fails. Every open or created database and branch has that rule '
  'installed; opening all branches yields each under its id. Iterators move by one row, seek the key or its neighbour, and '
  'tell the end from a row. Any database error is passed on, writes to the end marker are refused, and closed stores and '
  'iterators refuse all work.',
  over=['inputs', 'fault_sequences', 'histories'], quant='every outcome of every database call, all keys and changes, up to 3 branches, records and changes',
  why='store tests run on a healthy database with three keys; none injects an error, a closed store or a lost branch',
  files=['db/rocks_store.cc', 'db/rocks_store.hpp'],
  mech=[('RocksDBStore', 'db/rocks_store.cc'), ('RDTMerge', 'db/rocks_store.cc'), ('RocksDBStore::Iterator', 'db/rocks_store.cc')],
  technique='path-wise abstract interpretation of LLVM IR over an event model of the RocksDB interface, every call outcome followed',
  note=TRUST + 'Trusts RocksDB to do what its interface says; loops over branches, records and changes are followed for 0 to 3 of them.')

P(id='P17', title='The text reader accepts the RON grammar and nothing else, op by op',
  statement='Reading a frame yields, for each op, exactly the id, reference, values (type, text and char count), span '
  'length and term that the grammar gives to its text; omitted ids and references continue from the op before, and each '
  'op of a span takes the next id, refers to the op before it and takes the next char. Text outside of the grammar, '
  'numbers or UUID words over the limit, spans of no ops and frames that end within an op give a syntax error, never an '
  'op. A UUID read from its own text, UTF-8 text read as chars, and the escaped chars of a string follow the same rules.',
  over=['inputs'], quant='every text of every length, from a new cursor and after any op; all four value types in spans',
  why='tests parse a few dozen frames; the reader has 80 states and 300 transitions with an action copied into each',
  files=['ron/text-parser.cc', 'ron/uuid-parser.cc', 'ron/utf8-parser.cc', 'ron/cp-parser.cc', 'ron/text.cc', 'ron/text.hpp'],
  mech=[('TextFrame::Cursor::Next', 'ron/text-parser.cc'), ('Uuid(Slice)', 'ron/uuid-parser.cc'),
        ('ParseUtf8', 'ron/utf8-parser.cc'), ('TextFrame::Cursor::NextCodepoint', 'ron/cp-parser.cc'),
        ('decode_hex_cp, decode_esc', 'ron/text.cc')],
  technique='product construction: the automaton extracted from the LLVM IR of each scanner, with its register updates, '
  'is walked jointly with a reference transducer of the grammar until no new joint state appears',
  note=TRUST + 'Covers texts of any length below the 2^30 byte limit of a frame. The meaning of int_too_big is taken as '
  'given, and the line counter and the wording of error comments are not judged.')

P(id='P18', title='A scan of an array hides exactly what removals in force reach',
  statement='For every causal tree of one array the scan gives one mark per op, in order. The root, removals, undos and '
  'misplaced ops (with all below them) are hidden; the k-th removal of a chain hides the element k-1 steps up the path from '
  'the element the chain hangs on, never past the first; undos cancel removals of the chain they hang on in the same '
  'way, and a cancelled removal hides nothing. A frame not in tree order, not an array, with an op older than what it refers to or with ids that '
  'are no events is refused.',
  over=['inputs', 'histories'], quant='every causal tree of up to five ops with every choice of inserts, removals and undos; longer chains with a branch at every place; any ids',
  why='tests scan a few short texts; where chains outrun what they act on, or branch half way, only particular trees tell',
  files=['rdt/rga.hpp', 'ron/inc_stack.hpp'],
  mech=[('ScanRGA, entry_type', 'rdt/rga.hpp'), ('inc_stack', 'ron/inc_stack.hpp')],
  technique='abstract interpretation of LLVM IR over ranked ids against an independent account of visibility; the stack of '
  'runs is proved to be a stack by one step of each operation over symbolic runs',
  note=TRUST + 'Trees of up to 5 ops are complete, larger ones (to 12 ops) by families. The frame reader is covered by P17. A '
  'frame that breaks off by a syntax error is not claimed.')

P(id='P19', title='An object\'s log becomes the merge of its chains, up to the cutoff',
  statement='To turn a log into a state it is cut into chains, the longest runs of ops each of which refers to the op right '
  'before it. Every op up to and including the cutoff (all of them when there is none, or it is not in the log) is in '
  'exactly one chain, in log order, and no later op is in any. Those chains are merged once, by the data type the first op '
  'names; an error of the log or of the merge is returned and the result stays as it was; an empty log gives an empty state.',
  over=['inputs', 'histories'], quant='every log of up to seven ops with every choice of references and every cutoff; any ids; every outcome of reading and of the merge',
  why='tests turn a couple of short logs; where a chain ends, and what a cutoff inside one leaves, depends on the references of each log',
  files=['rdt/rdt.hpp'],
  mech=[('SplitLogIntoChains', 'rdt/rdt.hpp'), ('ObjectLogIntoState', 'rdt/rdt.hpp'), ('ObjectLogToState', 'rdt/rdt.hpp')],
  technique='abstract interpretation of LLVM IR over symbolic ids with reading and merging as events; chains compared with '
  'an independent account of runs',
  note=TRUST + 'The merge itself is P13 and P15. Logs longer than seven ops are not explored. A cutoff in the middle of a compressed span, and a log '
  'whose first op cannot be read, are not claimed.')
P(id='P20', title='Comparing, copying and reading frames accounts for every op and value',
  statement='Two ops compare as equal exactly when ids, references, the number of values and every value, type included, agree; two '
  'frames exactly when all their ops do, in order, notes (comment ops) left out; otherwise the first difference is reported by its kind. '
  'A frame copied or rewritten has every op, in order, and its chunks end where they did; rewriting reports a frame it cannot read. '
  'A string value is read whole, after what the target had, and an error in the middle is reported; asking for a value that is '
  'not there, or of another type, is answered no.',
  over=['inputs'], quant='every pair of ops with up to two values of every type, pairs of up to four; every pair from a pool of frames with and without '
  'notes; every choice of chunk ends in a frame of up to three ops; any ids and values; every way reading can fail',
  why='tests compare equal frames and a couple of different ones; which difference goes unnoticed depends on where it is',
  files=['ron/frames.hpp'],
  mech=[('CompareOps', 'ron/frames.hpp'), ('CompareWithCursors', 'ron/frames.hpp'), ('AppendAll', 'ron/frames.hpp'),
        ('Reserialize', 'ron/frames.hpp'), ('ReadString', 'ron/frames.hpp'), ('HasValue', 'ron/frames.hpp')],
  technique='abstract interpretation of LLVM IR over symbolic ids and values with cursors and builders as contracts; results '
  'compared with an independent account',
  note=TRUST + 'What cursors and builders do is P02 to P04 and P17. Comparing a frame of nothing but notes with an empty one, frames that break off, and NaN '
  'are not claimed.')

P(id='P21', title='A stack of runs stands for the list of its values',
  statement='The compressed stack that holds paths of ids and positions behaves as the plain list of the values pushed to it: a push adds '
  'the value at the end, a pop takes exactly the last one, the first and last values and the size are those of the list, and no value is '
  'changed, however the values fall into runs of consecutive ones. Walking it from begin to end visits every value once, in order; '
  'skipping n values is n steps; skipping within a run stops at its end and tells how many values it skipped; two places are '
  'equal exactly when they are the same place.',
  over=['inputs', 'histories'], quant='every push, pop and query on stacks of up to nine runs of any values and any lengths; every walk, skip and pair of places in '
  'stacks of up to three runs of up to three values, and the edges of runs of up to 2^31 values; any values',
  why='a test pushes a few rows of numbers; where a run ends, joins the next or is half taken away, only particular histories tell',
  files=['ron/inc_stack.hpp'],
  mech=[('push_back, pop_back, back, front, size', 'ron/inc_stack.hpp'), ('const_iterator', 'ron/inc_stack.hpp')],
  technique='abstract interpretation of LLVM IR, one step of each operation from symbolic runs (linear forms over intervals), and '
  'walks over given lengths with symbolic values, compared with the list',
  note=TRUST + 'Skipping past the end, and stacks of more than 2^31 values, are not claimed.')

P(id='P22', title='Acknowledged writes survive a crash of the process or the machine',
  statement='A change whose write has returned OK is in the store after a crash and reopening, a batch wholly or not at all.',
  over=['crash_points', 'inputs'], quant='every point of a crash in or after a write',
  why='tests never crash in the middle of a write', files=['db/rocks_store.cc'],
  mech=[('RocksDBStore::Write', 'db/rocks_store.cc')], technique='none', note='',
  na='Durability is decided inside RocksDB (its write-ahead log, recovery and the sync settings in force) and the file system, none of which is '
  'source of this repository; what this repository contributes (one atomic write per batch, results passed on) is decided by P16.')

P(id='P23', title='A float written as text and read back is the same number',
  statement='The text written for a double, read back, gives the same double, for every value but NaN.',
  over=['inputs'], quant='all 2^64 doubles',
  why='tests write a few short decimals', files=['ron/text.hpp', 'ron/text.cc'],
  mech=[('Builder::AppendAtom', 'ron/text.hpp'), ('ParseFloat', 'ron/text.cc')], technique='none', note='',
  na='The decimal conversion both ways is the C library (printf, strtod) at run time; that 17 digits are asked for, in a form the reader takes '
  'as a float, is part of P14, and that the text reaches strtod whole is part of P10.')

BOUNDED = {'P11', 'P13', 'P14', 'P15', 'P16', 'P18', 'P19', 'P20', 'P21'}
for _p in PROPS:
    if _p['id'] in BOUNDED:      # sizes are bounded: complete within the bounds, no proof beyond them
        _p.setdefault('level', 'other')
        _p['note'] += ' Complete within the bounds stated in the quantifier; for greater sizes it is evidence, not proof.'
