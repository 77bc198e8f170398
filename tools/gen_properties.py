#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
B='whasm/src/binary/'; V='whasm/src/validation/'; S='whasm/src/structure/'
def P(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    return d
ps=[
P('C01','A byte sequence is accepted exactly when it is a valid WebAssembly 1.0 module',
 'Decoding a byte sequence and then validating the result succeeds if and only if the bytes are a well-formed WebAssembly 1.0 binary module that satisfies the WebAssembly 1.0 validation rules. The only leniencies are that LEB128 integers may be padded to any length and that the table/memory immediates of call_indirect, memory.size and memory.grow are ordinary indices.',
 ['inputs','programs'],'every byte sequence offered to decode-then-validate',
 'Only one fixed 74-byte module is decoded by the tests and no test at all runs the validator.',
 [B+'module.rs',B+'instr.rs',V+'module.rs',V+'instr.rs',V+'stacks.rs',V+'context.rs'],
 [('module decoding',B+'module.rs'),('module validation',V+'module.rs')],['iter.parse::<Module>()','module.validate()']),
P('C02','Function bodies validate exactly when well-typed under structured control flow',
 'Within an otherwise valid module, a function body is accepted if and only if it is well-typed under the WebAssembly 1.0 rules for blocks, loops, ifs, branches, returns, calls and unreachable (stack-polymorphic) code. Branches may target every enclosing construct including the function body itself, loop labels take no operands, all other labels take the result type of their construct, and an if without an else can only have an empty result.',
 ['programs','inputs'],'every function body (instruction sequence) in every function context',
 'No test exercises the validator; acceptance depends on the whole operand/control history of a body, so the number of cases grows exponentially with length.',
 [V+'instr.rs',V+'stacks.rs',V+'idx.rs',V+'module.rs'],
 [('operand and control stacks',V+'stacks.rs'),('per-instruction typing',V+'instr.rs'),('label resolution',V+'idx.rs')],['module.validate()'],
 [('operands/frames','abstract operand stack and open control constructs',V+'stacks.rs')]),
P('C03','Every instruction enforces its operand types and produces its result types',
 'For every instruction of WebAssembly 1.0, validation succeeds only when the operands it finds have exactly the types the specification assigns to that instruction, and what it leaves behind is exactly the specified result, in both reachable and unreachable code. This covers all numeric, conversion, parametric, variable, memory, call and indirect-call instructions.',
 ['programs','inputs'],'every instruction, every operand stack, reachable and unreachable, every observer of the result',
 'About 170 hand-written type signatures, none of which is touched by a test.',
 [V+'instr.rs',V+'stacks.rs'],[('per-opcode pop/push signature',V+'instr.rs')],['module.validate()']),
P('C04','Memory instructions need a memory and never over-state their alignment',
 'A load, store, memory.size or memory.grow is accepted only if the module has the memory it names (defined or imported). A load or store is accepted only if two to the power of its declared alignment exponent does not exceed the access width in bytes, for every exponent and regardless of its offset.',
 ['programs','inputs'],'every memory instruction, alignment exponent, offset and memory configuration',
 'No test validates a memory instruction, and the alignment and offset immediates have 2^32 values each.',
 [V+'instr.rs',V+'idx.rs'],[('load/store rule',V+'instr.rs'),('memory index lookup',V+'idx.rs')],['module.validate()']),
P('C05','Every index resolves in its own index space, imports before definitions',
 'Validation accepts a type, function, table, memory, global, local or label index if and only if it is smaller than the size of its index space, wherever the index occurs. A function, table, memory or global index counts imported entities of that kind first, in import order, then the defined ones, and a local index counts parameters first and then declared locals; the entity found is the one whose type is used.',
 ['programs','configurations','inputs'],'every mix of imports and definitions and every index value in every position that holds an index',
 'No test contains an import or an out-of-range index; correctness depends on combinations of counts and index values.',
 [V+'idx.rs',V+'context.rs',V+'module.rs'],[('index lookups',V+'idx.rs'),('index space construction',V+'context.rs')],['module.validate()']),
P('C06','Initialisers and offsets are accepted only as well-typed constant expressions',
 'A global initialiser, element offset or data offset is accepted if and only if it is a constant expression (numeric constants, or global.get of an immutable global) that leaves exactly one value of the required type: the declared type of the global, or i32 for offsets. A global initialiser may only refer to imported globals; offsets may refer to any immutable global of the module.',
 ['programs','configurations'],'every instruction sequence in every initialiser/offset position and every set of globals',
 'No test validates a global, element segment or data segment.',
 [V+'instr.rs',V+'module.rs',V+'context.rs'],[('constant-expression rule',V+'instr.rs'),('initialiser context',V+'module.rs')],['module.validate()']),
P('C07','Module-wide constraints: limits, one table, one memory, one result, start type',
 'A module is accepted only if every table and memory type (imported or defined) has minimum <= maximum, every memory stays within 65536 pages, there is at most one table and at most one memory counting imports and definitions together, every function type has at most one result, and the start function takes no parameters and returns nothing. None of these rules rejects a module that respects them.',
 ['configurations','inputs'],'every combination of limits, imports, definitions, function types and start functions',
 'No test validates a module; the rules concern boundary values and combinations of sections.',
 [V+'ty.rs',V+'module.rs'],[('type rules',V+'ty.rs'),('module rules',V+'module.rs')],['module.validate()']),
P('C08','Export names are unique across the whole module',
 'A module whose exports are otherwise fine is accepted if and only if no two exports have byte-for-byte the same name, whatever they export, how many there are and in which order they appear.',
 ['inputs','configurations'],'every list of export names and kinds',
 'The only test module has a single export and is not validated.',
 [V+'module.rs'],[('export name check',V+'module.rs')],['module.validate()']),
P('C09','Validation reports the types of all imports and exports, in declaration order',
 'When a module validates, the result lists one external type per import and one per export, in declaration order, each of the kind declared and carrying exactly the function, table, memory or global type of the entity it denotes.',
 ['configurations','programs'],'every valid module',
 'No test looks at the validation result.',
 [V+'module.rs',V+'context.rs',V+'idx.rs'],[('external types',V+'module.rs')],['validate() result imports/exports']),
P('C10','No input crashes or hangs decoding, validation, printing or dropping a module',
 'For every finite byte sequence, decoding, and validating, formatting and dropping whatever was decoded, terminate and report their outcome as a normal success or error: never a panic, an abort, arithmetic overflow or an endless loop.',
 ['inputs'],'every finite byte sequence, well-formed or not',
 'Tests feed a handful of well-formed inputs and a few truncated primitives.',
 [B+'module.rs',B+'instr.rs',B+'core/vec.rs',B+'core/unsigned.rs',B+'core/signed.rs',V+'idx.rs',V+'stacks.rs'],
 [('errors as values, no unchecked indexing',B+'core/error.rs')],['iter.parse()','module.validate()','process exit']),
P('C11','Memory use follows the bytes present, not the counts they claim',
 'The memory allocated while decoding a byte sequence, and while validating the module it decodes to, is bounded by a fixed multiple of the bytes actually read plus a constant, however large the element counts and sizes written in the input are and however deeply it nests; the single exception is run-length-encoded local declarations, which are expanded. Local declarations whose total exceeds 2^32-1 are rejected without being expanded beyond that total.',
 ['inputs'],'every input, in particular every claimed count in every counted position',
 'Tests only use correct, tiny counts and never observe allocation.',
 [B+'core/vec.rs',V+'stacks.rs'],[('vector decoding',B+'core/vec.rs')],['allocator']),
P('C12','Instruction sequences decode to exactly the instruction tree they encode',
 'For every byte sequence, an expression decodes if and only if it is a well-formed sequence of WebAssembly 1.0 instructions with properly nested block/loop/if/else/end, and the decoded tree contains exactly the encoded instructions with their exact immediates, in order and at the right nesting. A missing else-branch and an empty one are represented alike.',
 ['inputs','programs'],'every byte sequence offered as an expression',
 'Tests decode one expression consisting of a single i32.const.',
 [B+'instr.rs',S+'instr.rs'],[('opcode map',B+'instr.rs'),('block nesting',B+'instr.rs')],['iter.parse::<Expr>()']),
P('C13','Section contents decode to exactly the entities they encode',
 'For every section of a module, the decoded type, import, table, memory, global, export, start, element, code and data entries are exactly those the bytes encode, in order and with all fields (names, kinds, indices, limits, mutability, value types, locals, offsets and payload bytes) intact. Bytes that are not a well-formed entry are rejected.',
 ['inputs'],'every section content',
 'One test module with five small sections.',
 [B+'module.rs',B+'ty.rs',B+'idx.rs'],[('entry decoding',B+'module.rs')],['iter.parse::<Module>()']),
P('C14','Only correctly framed modules decode; custom sections never matter',
 'A module decodes only if it starts with the exact magic and version bytes and continues with sections whose ids are known, strictly increasing and at most once each (custom sections excepted), each filling its declared size exactly up to the end of input. Custom sections with a valid UTF-8 name may appear any number of times at any section boundary and do not change the decoded module.',
 ['inputs','histories'],'every preamble, every sequence of sections and every declared size',
 'One test module with one section order and correct sizes.',
 [B+'module.rs',B+'core/sized.rs'],[('section loop and ordering',B+'module.rs'),('size framing',B+'core/sized.rs')],['iter.parse::<Module>()']),
P('C15','Declared functions and code bodies always pair up one to one',
 'A module decodes only if the number of declared functions equals the number of code bodies, an absent section counting as zero. The i-th decoded function has the i-th declared type index and the i-th body.',
 ['inputs','configurations'],'every pair of function and code sections, each possibly absent',
 'One test with exactly one function and one body.',
 [B+'module.rs'],[('function/code pairing',B+'module.rs')],['iter.parse::<Module>()']),
P('C16','A truncated module never passes for a complete one',
 'Cutting an accepted module at any byte that is not the end of the preamble or of a section makes decoding fail. Cutting it at a section boundary yields either exactly the module made of the remaining sections or a failure because declared functions lost their bodies.',
 ['crash_points','inputs'],'every accepted module and every cut position',
 'No test truncates a module.',
 [B+'module.rs',B+'core/sized.rs',B+'core/byte.rs'],[('end-of-input detection',B+'core/byte.rs'),('size framing',B+'core/sized.rs')],['iter.parse::<Module>()']),
P('C17','LEB128 integers decode to their exact value or are rejected as out of range',
 'For every supported signed and unsigned integer width (8 to 64 bits), decoding a byte sequence yields exactly the mathematical value it encodes in LEB128 when that value fits the width, however much the encoding is padded, and fails otherwise.',
 ['inputs'],'every byte sequence, for each of the eight integer types',
 'Tests cover about twenty sequences, all for 8-bit types.',
 [B+'core/unsigned.rs',B+'core/signed.rs'],[('unsigned LEB128',B+'core/unsigned.rs'),('signed LEB128',B+'core/signed.rs')],['iter.parse::<u32>() etc.']),
P('C18','Raw bytes, fixed arrays and floats decode bit for bit',
 'A raw byte, a fixed-size array of up to eight elements, and a 32- or 64-bit float decode to exactly the bits encoded (little-endian for floats, every NaN payload and signed zero included), consuming exactly their width and failing when the input is shorter.',
 ['inputs'],'every bit pattern and every short input',
 'Tests decode pi and two arrays.',
 [B+'core/byte.rs',B+'core/array.rs',B+'core/float.rs'],[('float assembly',B+'core/float.rs')],['iter.parse::<f32>() etc.']),
P('C19','Vectors and names decode to exactly the elements encoded',
 'A counted vector decodes to exactly the counted number of elements in order, a run-length vector to each element repeated its counted number of times, and a name to exactly the encoded string if its bytes are valid UTF-8 and to an error otherwise. An input holding fewer elements than counted is rejected.',
 ['inputs'],'every count, every element sequence and every byte string',
 'Tests use vectors of three to five elements and one string.',
 [B+'core/vec.rs',B+'core/string.rs'],[('vector decoding',B+'core/vec.rs'),('UTF-8 check',B+'core/string.rs')],['iter.parse::<Vec<_>>()','iter.parse::<String>()']),
P('C20','A size-prefixed element must fill its declared size exactly',
 'A size-prefixed element decodes only if the element inside consumes exactly the declared number of bytes and they are all present; it can never read beyond its declared size, at any nesting of size prefixes, and what follows it is left untouched.',
 ['inputs'],'every declared size against every content, nested to any depth',
 'Tests cover sizes 2 and 3 around a two-byte array.',
 [B+'core/sized.rs'],[('bounded, counted sub-iterator',B+'core/sized.rs')],['iter.parse::<Sized<_>>()']),
P('C21','Decoding consumes exactly its own bytes from any kind of byte source',
 'A successful decode of an element reads exactly the bytes that encode it and leaves the source positioned at the next byte, so elements can be decoded back to back. The outcome depends only on the bytes delivered and not on the kind of iterator, its size hint or how it is chunked.',
 ['inputs','histories'],'every element type, every sequence of elements and every byte-iterator implementation',
 'All tests use one iterator kind, and only two check what is left behind.',
 [B+'core/traits.rs',B+'core/sized.rs',B+'module.rs'],[('single-byte pull interface',B+'core/byte.rs')],['iterator position after parse']),
P('C22','Decoding and validation depend on nothing but their input',
 'The outcome of decoding a byte sequence or validating a module is the same whatever was decoded or validated before, successfully or not, in the same thread or process.',
 ['histories'],'every history of earlier decode and validate calls',
 'Each test makes one call and compares one result.',
 [B+'module.rs',V+'context.rs'],[('fresh context per validation',V+'module.rs'),('no global state',B+'core/traits.rs')],['iter.parse()','module.validate()']),
P('C23','Decoding failures are reported with the documented error kind',
 'Input that ends too early is reported as unexpected end of file, an integer that does not fit as out of range of its signedness, bad UTF-8 as an encoding error, an under-filled size prefix as a size mismatch, a wrong preamble as bad magic or bad version, and misplaced or unknown section ids, opcodes and type bytes as the corresponding error carrying that id.',
 ['inputs'],'every input with a single defect',
 'Tests check six error values.',
 [B+'core/error.rs',B+'core/byte.rs',B+'module.rs',B+'instr.rs',B+'ty.rs'],[('error values',B+'core/error.rs')],['Err value of iter.parse()']),
P('C24','The command-line tool reports exactly the library verdict for the named file',
 'For every argument list and file content, the tool exits 0 without diagnostics if and only if the last file named can be read, decodes and validates; otherwise it exits 1 and prints a message saying whether arguments, reading, parsing or validation failed. It prints the decoded module if and only if a print flag is given anywhere and everything succeeded.',
 ['inputs','configurations'],'every list of UTF-8 arguments and every file content',
 'The tool has no tests.',
 ['parser/src/main.rs'],[('argument handling and verdict',"parser/src/main.rs")],['exit status','standard output']),
P('C25','Each function is judged on its own: a module is valid iff every function is',
 'The verdict on one function body depends only on its own type, locals and body and on the module-level declarations, never on the other bodies in the module, their order or their number. A module that is otherwise valid is accepted if and only if every one of its functions would be accepted with the other bodies replaced by trivially valid ones.',
 ['programs','configurations'],'every list of functions with every body',
 'No test validates a module, let alone one with several functions.',
 [V+'module.rs',V+'context.rs',V+'stacks.rs'],[('per-function reset of locals, return type and stacks',V+'module.rs')],['module.validate()'],
 [('locals/ret/stacks','per-function state kept in a context shared by all functions of a module',V+'context.rs')]),
P('C26','Decodes in progress at the same time do not affect each other',
 'Several decodes may be in progress at once, in one thread (when the source of bytes of one itself decodes or validates something) or in several threads taking turns at any byte. Each of them has the outcome it has alone.',
 ['schedules','histories'],'every pair or nest of decodes and every interleaving of their reads',
 'Tests decode one thing at a time; shared scratch state only shows when two decodes overlap at particular bytes.',
 [B+'core/traits.rs',B+'module.rs',B+'core/vec.rs',B+'core/sized.rs'],[('decoders keep all state in locals and in the byte source',B+'core/traits.rs')],['iter.parse()','module.validate()']),
P('C27','Validation answers for every syntax tree, decoded or built by hand',
 'Validating any module value that can be built through the public structure types returns a verdict, without panicking or running on, also when the tree could not come from a binary: stray end or else instructions, blocks with several results, arbitrary instructions in initialisers and offsets, indices and alignments of any value. Validating the same tree twice gives the same verdict.',
 ['programs','inputs'],'every module value of the public structure types',
 'No test validates anything, and decoded modules never contain these trees.',
 [V+'instr.rs',V+'stacks.rs',V+'module.rs',V+'idx.rs'],[('per-instruction typing',V+'instr.rs'),('constant-expression rule',V+'instr.rs')],['module.validate()']),
P('C28','Containers run a user-defined element decoder once per element, in order',
 'Vectors, run-length vectors, unwrapping vectors, arrays and size-prefixed elements work for any element type that implements the decoding trait: its decoder is called once per encoded element, in order, each call starting where the previous one stopped and, within a size prefix, seeing no byte beyond it. The first error it returns is handed on unchanged and no further call is made. Every element produced is returned or dropped exactly once.',
 ['inputs','histories'],'every behaviour of the element decoder (bytes taken, success or error) and every input',
 'Tests decode containers of library types only, and none looks at element errors or at what becomes of the elements decoded before one.',
 [B+'core/vec.rs',B+'core/array.rs',B+'core/sized.rs',B+'core/traits.rs'],[('element loops',B+'core/vec.rs'),('arrays',B+'core/array.rs'),('size prefix',B+'core/sized.rs')],['iter.parse::<Vec<T>>()','calls of T::parse']),
P('C29','Decoded modules compare equal and print alike exactly when their contents agree',
 'Two decoded modules compare equal if and only if they have the same contents, whichever encoding of its integers each used, and their debug output (plain and pretty) is the same if and only if they have the same contents. Modules with float constants that are NaN or negative zero are left aside.',
 ['inputs'],'every pair of well-formed modules',
 'Tests compare one decoded module with one expected value; that differing modules differ is never checked.',
 [S+'module.rs',S+'instr.rs',S+'ty.rs',S+'idx.rs'],[('equality and printing of the tree types',S+'module.rs')],['module == module','format!("{:?}", module)']),
]
assert len({p['id'] for p in ps})==len(ps)
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in ps: f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(ps))
