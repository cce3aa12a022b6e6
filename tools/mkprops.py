#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
S='lib/SPVM/Builder/src/'; I='lib/SPVM/Builder/include/'; L='lib/SPVM/'; D='lib/SPVM/Document/'
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    P.append(d)

p('C01','Integer arithmetic computes the documented value or throws',
 'For every pair of operand values of type byte, short, int or long, the operators + - * / % div_uint div_ulong mod_uint mod_ulong, unary minus, ++ and -- and their assignment forms produce the two\'s-complement result of the documented C expression in the documented result type (the modulo takes the sign of its right operand), and an integer division or modulo by zero throws an exception with the basic error id and leaves the destination unchanged. No operand value terminates the process.',
 ['inputs'],'all 2^64 pairs of int operands and all 2^128 pairs of long operands for each operator, both in the interpreter and in generated C',
 'The operator tests use a few operand pairs per operator; a wrong widening, a sign error or a trap on one extreme pair is outside them.',
 [I+'spvm_implement.h',S+'spvm_vm.c',S+'spvm_precompile.c',S+'spvm_opcode_builder.c',S+'spvm_check.c'],
 [('arithmetic implementations shared by interpreter and generated code',I+'spvm_implement.h: SPVM_IMPLEMENT_ADD_INT .. SPVM_IMPLEMENT_MODULO_UNSIGNED_LONG'),('binary numeric conversion',S+'spvm_check.c')],['method return value','exception and error id of a method call'])
p('C02','Bit and shift operators compute the documented bits',
 'For every operand value, & | ^ ~ and << >> >>> (and their assignment forms) on int and long, after the documented widening of byte and short operands, return exactly the bits of the documented C expression; >> propagates the sign, >>> inserts zeros in the width of the left operand.',
 ['inputs'],'all operand values; shift counts inside the width of the left operand (outside it the documented C expression is undefined)',
 'The tests check single constants; a shift performed at the wrong width agrees on small constants.',
 [I+'spvm_implement.h',S+'spvm_opcode_builder.c',S+'spvm_vm.c',S+'spvm_check.c'],
 [('bit and shift implementations',I+'spvm_implement.h: SPVM_IMPLEMENT_LEFT_SHIFT_INT ..')],['method return value'])
p('C03','Comparisons and conditions agree with the mathematical order',
 'For every pair of values of each numeric type, == != < <= > >= and <=> return what the order of that type says (IEEE rules for float and double, so that every ordered comparison with NaN is false), and a value used as a condition is true exactly when it is non-zero, a defined object, or a true Bool. The value of ! && || and of the comparison operators is 0 or 1 wherever it is used.',
 ['inputs'],'all pairs of byte, short, int, long, float and double values, including NaN, infinities and signed zero',
 'Tests use small distinct numbers; 64-bit values differing only above bit 31, NaN operands and fused compare-and-branch forms are rarely reached.',
 [I+'spvm_implement.h',S+'spvm_opcode_builder.c',S+'spvm_check.c',S+'spvm_vm.c'],
 [('comparison implementations',I+'spvm_implement.h: SPVM_IMPLEMENT_NUMERIC_COMPARISON_*'),('condition evaluation',S+'spvm_check.c, '+S+'spvm_opcode_builder.c')],['method return value','branch taken'])
p('C04','Numeric conversions and casts are exact for every value',
 'A cast or implicit conversion between any two of byte, short, int, long, float and double returns the value of the corresponding C conversion (widening preserves the value, integer narrowing keeps the low bits, floating arithmetic stays in the width of its type), and boxing a numeric value and unboxing it again gives the same bits. Unboxing undef or an object of another type throws an exception.',
 ['inputs'],'all values of the source type for each of the ordered pairs of numeric types; float-to-integer only for values the C conversion defines',
 'The tests convert one or two values per pair.',
 [I+'spvm_implement.h',S+'spvm_check.c',S+'spvm_opcode_builder.c',S+'spvm_api.c'],
 [('type conversion implementations',I+'spvm_implement.h: SPVM_IMPLEMENT_TYPE_CONVERSION_*'),('conversion opcode selection',S+'spvm_opcode_builder.c')],['method return value','get_type_name of the boxed object'])
p('C05','String operators follow byte-sequence semantics',
 'For all strings including those with NUL bytes, eq ne lt le gt ge cmp order strings as unsigned byte sequences with the shorter prefix first, the concatenation operator returns exactly the bytes of both operands, length returns the byte count, and every string created is followed by a NUL byte. An undef operand of concatenation throws, and comparisons treat undef as less than every string.',
 ['inputs'],'all byte contents of strings up to the bounded length, all length pairs within it, and undef',
 'Tests compare ASCII literals; embedded NULs, bytes above 127 and prefix relations between lengths are barely sampled.',
 [I+'spvm_implement.h',S+'spvm_api.c',S+'spvm_vm.c'],
 [('string comparison and concatenation',I+'spvm_implement.h: SPVM_IMPLEMENT_STRING_COMPARISON_OP, SPVM_IMPLEMENT_STRING_CONCAT'),('string creation',S+'spvm_api.c: SPVM_API_new_string_no_mortal, SPVM_API_concat_no_mortal')],['method return value','bytes read back through get_chars'])
p('C06','Element access is bounds-checked for every index',
 'Reading or writing an element of an array (byte, short, int, long, float, double, object, string or multi-numeric elements, and characters of a mutable string) with index i succeeds exactly when the array is defined and 0 <= i < length, then touches exactly that element and no other, and otherwise throws an exception. No index value leads to an access outside the array.',
 ['inputs'],'all 2^32 index values for each element type, read and write, all stored values',
 'Tests probe -1 and length; a check lost for one opcode, one element type or one large index is not sampled.',
 [I+'spvm_implement.h',S+'spvm_vm.c',S+'spvm_precompile.c',S+'spvm_api.c'],
 [('bounds checks',I+'spvm_implement.h: SPVM_IMPLEMENT_GET_ARRAY_ELEMENT_*, SPVM_IMPLEMENT_SET_ARRAY_ELEMENT_*'),('native element access',S+'spvm_api.c: SPVM_API_set_elem_object ..')],['element values','exception'])
p('C07','Array and string creation honours every requested length',
 'Creating an array or a string of any requested length either throws an exception (always when the length is negative, possibly when memory is exhausted) or yields an object whose length is the requested one, whose whole content is zero or undef, and all of whose elements can be read and written. Array literals hold exactly the listed values in order.',
 ['inputs'],'all 2^32 requested lengths for every element type through the new operators, new_string_len and the native constructors',
 'Tests create arrays of a few elements; size computations that overflow only for large lengths never run.',
 [S+'spvm_api.c',I+'spvm_implement.h',S+'spvm_vm.c'],
 [('allocation size computation',S+'spvm_api.c: SPVM_API_new_*_array_no_mortal, SPVM_API_new_string_no_mortal, SPVM_API_new_mulnum_array_no_mortal'),('length check',I+'spvm_implement.h: SPVM_IMPLEMENT_NEW_*')],['array length','element values','exception'])
p('C08','Fields, class variables and multi-numeric fields do not interfere',
 'For every class definition within the bound and every value, a value stored in a field, class variable or multi-numeric field is read back unchanged until that same member is stored again, members start as zero or undef, and storing one member changes no other, including members inherited from a parent class. Access through an undef invocant throws an exception.',
 ['inputs','programs'],'all stored values, for a family of class layouts mixing every member type, visibility and inheritance',
 'Overlap or mis-sized access shows only for particular member orders and particular byte values of the neighbours.',
 [S+'spvm_check.c',S+'spvm_compiler.c',S+'spvm_opcode_builder.c',I+'spvm_implement.h'],
 [('field offset assignment',S+'spvm_check.c / '+S+'spvm_compiler.c field offsets'),('field access',I+'spvm_implement.h: SPVM_IMPLEMENT_GET_FIELD_*, SPVM_IMPLEMENT_SET_FIELD_*')],['values read back','exception'])
p('C09','Local variables, references and arguments keep their own storage',
 'In every method within the bound, a local variable or argument keeps the value last assigned to it through its name or through a reference to it until it is assigned again, whatever other variables, nested blocks, temporaries and calls occur in between; a variable declared without initialiser starts as zero or undef each time its declaration runs.',
 ['inputs','programs'],'all values of the variables, for a family of programs with nested scopes, loops, shadowing, references, multi-numeric variables and calls',
 'Storage sharing between variables shows only for particular combinations of scopes and types that no unit test enumerates.',
 [S+'spvm_check.c',S+'spvm_opcode_builder.c',S+'spvm_vm.c',S+'spvm_api.c'],
 [('typed variable index allocation',S+'spvm_check.c: typed_var_index'),('argument passing',I+'spvm_implement.h: SPVM_IMPLEMENT_GET_STACK_*, SPVM_IMPLEMENT_SET_STACK_*')],['method return value'])
p('C10','Run-time type tests accept exactly the assignable types',
 'For every object and every type within the bound, isa, is_type, is_compile_type, type casts and assignments to an element of an object array accept the object exactly when the documented assignability rules say so (class inheritance, interfaces, array dimensions, object, any-object-array, string mutability), and otherwise throw or return false without changing the destination. A value that passed a cast is usable at the cast type.',
 ['inputs','programs'],'every pair of object kind and target type from a universe of classes, interfaces, numeric object types, strings and arrays of dimension 0 to 3',
 'The tests check chosen pairs; the relation has thousands of pairs and two separate implementations (compile time and run time).',
 [S+'spvm_type.c',S+'spvm_api.c',S+'spvm_check.c',I+'spvm_implement.h'],
 [('run-time assignability',S+'spvm_api.c: SPVM_API_isa, SPVM_API_RUNTIME assign checks'),('compile-time assignability',S+'spvm_type.c: SPVM_TYPE_can_assign')],['operator value','exception'])
p('C11','Exceptions unwind to the nearest eval with their id and message',
 'An exception thrown at any point (die, a failing operator, a native call) abandons the rest of the innermost eval block or, without one, of the method and its callers, and there @ equals the thrown message (followed by stack-trace lines) and eval_error_id the thrown error id; statements after the throw do not run, statements after the eval do, and without a throw the eval leaves @ undef and eval_error_id 0.',
 ['inputs','programs'],'every choice of throwing statement (a symbolic value selects it) in a family of programs with nested evals, loops, calls and destructors',
 'Tests throw at one place per program; the path matrix of throw place and nesting is not covered.',
 [S+'spvm_opcode_builder.c',S+'spvm_vm.c',S+'spvm_api.c',S+'spvm_check.c'],
 [('eval and exception control flow',S+'spvm_opcode_builder.c, '+S+'spvm_vm.c'),('error id propagation',S+'spvm_vm.c: CALL_METHOD, GOTO_IF_EXCEPTION')],['@','eval_error_id','side effects order'])
p('C12','Every object is destroyed exactly once and nothing leaks',
 'On every execution path, normal or by exception, an object stays alive while any variable, field, element, class variable or temporary of a running method refers to it, is released exactly once after the last reference goes away, its DESTROY method runs exactly once at that moment, and when the program\'s variables are gone the number of live memory blocks returns to its previous value. No freed object is ever read or written.',
 ['programs','inputs'],'every path selected by symbolic inputs through a family of programs that copy, overwrite, return, throw and pass objects',
 'A leak or premature release lives on one path (an early return, a throw in the middle of an expression) and tests check the memory count only for the paths they run.',
 [S+'spvm_api.c',S+'spvm_vm.c',S+'spvm_opcode_builder.c',I+'spvm_implement.h'],
 [('reference counting',S+'spvm_api.c: SPVM_API_assign_object, SPVM_API_dec_ref_count'),('scope exit',S+'spvm_api_internal.c: leave_scope_local; '+S+'spvm_opcode_builder.c mortal handling')],['live memory block count','DESTROY side effects'],[('reference count','number of owners of an object',I+'spvm_object.h')])
p('C13','Weak references never dangle and never keep objects alive',
 'After weaken, a field no longer keeps its target alive; when the target is destroyed every weak field that refers to it reads undef, unweaken and re-assignment make the field strong again with the count restored, isweak tells the state, and destroying the holder before the target is harmless, for every order of these operations.',
 ['histories'],'every sequence up to the bounded length of assign, weaken, unweaken, overwrite, isweak, drop-target and drop-holder on a small object graph',
 'Unit tests run a few fixed orders; back-reference list corruption needs particular orders.',
 [S+'spvm_api.c',I+'spvm_implement.h',S+'spvm_vm.c'],
 [('weaken back references',S+'spvm_api.c: SPVM_API_weaken, SPVM_API_unweaken, SPVM_API_free_weaken_back_refs')],['field value','isweak','live memory block count'],[('back-reference list','addresses of weak fields pointing at an object',I+'spvm_weaken_backref.h')])
p('C14','Native scopes release exactly the temporaries created in them',
 'For every nesting of scopes and every number of temporary objects created by native code, leaving a scope releases exactly the temporaries created since it was entered and no others, temporaries survive until then, the temporary stack grows without losing entries, and a balanced sequence leaves memory and the stack depth as they were.',
 ['histories'],'every sequence up to the bounded length of enter, leave, create and push operations, across the growth boundary of the temporary stack',
 'The capacity growth and nesting combinations are hit by accident only.',
 [S+'spvm_api.c'],
 [('mortal stack',S+'spvm_api.c: SPVM_API_enter_scope, SPVM_API_leave_scope, SPVM_API_push_mortal')],['live memory block count','object contents after the scope'])
p('C15','A call runs the method that the class hierarchy determines',
 'A method call executes the definition found by the documented search (the object\'s own class, then its parents; interface methods by implementation; static calls by the named class), binds each argument to its parameter, uses the declared default for every omitted optional argument, and returns the callee\'s value. Calling on undef, or recursing past the call-depth limit, throws an exception and leaves the caller\'s variables intact.',
 ['inputs','programs'],'every object class and argument count and value over a small hierarchy with overriding, interfaces and optional parameters; every recursion depth around the limit',
 'Tests call each method in one or two configurations.',
 [S+'spvm_vm.c',S+'spvm_api.c',S+'spvm_check.c',S+'spvm_opcode_builder.c'],
 [('method search',S+'spvm_api.c: SPVM_API_get_instance_method; '+S+'spvm_check.c call resolution'),('optional arguments',S+'spvm_opcode_builder.c, '+I+'spvm_implement.h: GET_STACK_*_OPTIONAL'),('call depth',S+'spvm_api.c: SPVM_API_call_method')],['method return value','exception'])
p('C16','Generated C code behaves exactly like the interpreter',
 'For every method and every input, running the method from the C source produced by the precompiler gives the same return value, the same exception message and error id, the same side effects on reachable objects and the same memory balance as running it in the interpreter.',
 ['programs','inputs'],'all argument values of each method of a program family covering every operator and statement, and of the precompile methods of the standard classes',
 'The test suite runs the same samples in both modes; equality is checked only on those samples.',
 [S+'spvm_precompile.c',S+'spvm_vm.c',I+'spvm_implement.h'],
 [('C source generation',S+'spvm_precompile.c: SPVM_PRECOMPILE_build_method_source'),('shared operation implementations',I+'spvm_implement.h')],['method return value','exception','object contents'])
p('C17','Numeric literals denote exactly the written value or are rejected',
 'An integer literal in decimal, hexadecimal, octal or binary notation, with underscores and with or without suffix, denotes exactly the written value in its type, and a literal outside the documented range of its type, or malformed, is a compile error; a floating literal denotes the nearest value of its type.',
 ['inputs'],'all digit strings up to the bounded length around the range limits of int and long in each base',
 'Tests use a few literals at the limits; digit-level boundary errors are outside them.',
 [S+'spvm_toke.c',S+'spvm_op.c'],
 [('literal tokenizer',S+'spvm_toke.c: numeric literal branch')],['constant value in the compiled method','compile error'])
p('C18','String and character literals denote exactly the written bytes',
 'A string, single-quoted or character literal evaluates to exactly the bytes that its characters and escapes (including octal, hexadecimal and Unicode escapes and raw escapes) specify, variable expansion inserts the variable\'s string value, and an invalid escape, an out-of-range code point or an unterminated literal is a compile error.',
 ['inputs'],'all byte contents of the literal body up to the bounded length, and all code points for the Unicode escape',
 'The escapes interact with lengths and neighbours; tests have one example each.',
 [S+'spvm_toke.c',S+'spvm_utf8.c'],
 [('string literal tokenizer',S+'spvm_toke.c'),('UTF-8 conversion',S+'spvm_utf8.c')],['string bytes at run time','compile error'])
p('C19','Compilation of any source bytes is memory-safe and terminates',
 'For every source text, compiling it either succeeds or reports at least one error message; it never reads or writes outside its memory, never aborts and always returns.',
 ['inputs'],'all byte strings up to the bounded length placed at class level, in a method body, in an expression, in a type position and inside literals, POD and heredocs',
 'Malformed texts in tests are hand picked.',
 [S+'spvm_toke.c',S+'spvm_yacc.c',S+'spvm_op.c',S+'spvm_check.c',S+'spvm_compiler.c'],
 [('tokenizer',S+'spvm_toke.c'),('semantic check',S+'spvm_check.c')],['compile return value','error messages'])
p('C20','A failed compilation leaves the compiler and its classes as before',
 'After any history of successful and failed compilations in one process, classes compiled earlier keep working unchanged, a failed class can be corrected and compiled again, and every successful compilation gives the same program it would give in a fresh compiler.',
 ['histories'],'every sequence up to the bounded length over a set of valid and invalid sources that share names, constants and strings',
 'Tests use one failing compile at a time; stale entries need particular pairs.',
 [S+'spvm_compiler.c'],
 [('rollback after failure',S+'spvm_compiler.c: SPVM_COMPILER_compile_common')],['compile result','behaviour of compiled methods'])
p('C21','Internal tables, lists and buffers behave as map, sequence and text',
 'The compiler\'s symbol table returns for each key the last value stored under exactly that key and nothing for others, its list returns each element in order after any mix of operations and growth, and its string buffer holds exactly the appended text.',
 ['histories','inputs'],'all keys up to the bounded length including NUL bytes and collisions, all operation sequences up to the bounded length, across growth and rehash',
 'Collisions and growth boundaries are not sampled directly by any test.',
 [S+'spvm_hash.c',S+'spvm_list.c',S+'spvm_string_buffer.c',S+'spvm_allocator.c'],
 [('hash table',S+'spvm_hash.c'),('list',S+'spvm_list.c'),('string buffer',S+'spvm_string_buffer.c')],['values returned'])
p('C22','UTF-8 encoding and decoding are inverse on Unicode scalar values',
 'Encoding any Unicode scalar value and decoding it gives the value back with the right byte length, and decoding accepts exactly the well-formed UTF-8 sequences and rejects everything else without reading past the string.',
 ['inputs'],'all 2^32 code point arguments and all byte strings up to the bounded length and offset',
 'Tests decode a few characters; overlong forms, surrogates and truncations are a large space.',
 [S+'spvm_utf8.c','lib/SPVM/Fn.c',L+'Fn.spvm'],
 [('UTF-8 codec',S+'spvm_utf8.c'),('chr, ord, get_code_point',L+'Fn.c')],['returned code point and offset'])
p('C23','Fn string functions compute their documented result for all strings',
 'For all strings and arguments, index, rindex, contains, substr, split, join, repeat, trim, lc, uc, lcfirst, ucfirst, replace_chars, reverse, tr, chomp, chompr, equals_string_range, init_string and shorten return the documented result or throw exactly in the documented cases, and read-only strings are never modified.',
 ['inputs'],'all byte contents of strings up to the bounded length and all 2^32 offset and length arguments',
 'Offsets, limits and empty or overlapping matches combine into far more cases than the tests list.',
 [L+'Fn.spvm',L+'Fn.c'],[('string functions',L+'Fn.spvm')],['returned string','exception'])
p('C24','Number parsing, number functions and character classes are exact',
 'to_int, to_long and their base variants, hex, powi, powl, abs, labs and the character classification and case functions return the documented value for every argument and throw for every text or argument outside the documented domain.',
 ['inputs'],'all byte strings up to the bounded length, every supported base, and all 2^32 code points',
 'Tests have a few numbers per function.',
 [L+'Fn.spvm',L+'Fn.c'],[('parsing',L+'Fn.c: SPVM__Fn__to_int_with_base'),('classification',L+'Fn.spvm')],['returned value','exception'])
p('C25','List classes behave as sequences under every operation history',
 'For every list class and every history of push, pop, shift, unshift, insert, remove, replace, splice, set, get, resize, reserve and copies, contents and length equal those of an ideal sequence, an operation with an out-of-range argument throws and leaves the list unchanged, and capacity growth is invisible.',
 ['histories','inputs'],'every operation sequence up to the bounded length with all element values and all index arguments',
 'Tests run one operation at a time from a fixed start.',
 [L+'List.spvm',L+'IntList.spvm',L+'ByteList.spvm',L+'ShortList.spvm',L+'LongList.spvm',L+'FloatList.spvm',L+'DoubleList.spvm',L+'StringList.spvm'],
 [('list operations',L+'List.spvm')],['to_array, length, get'])
p('C26','Hash behaves as a map under every operation history',
 'For every history of set, get, delete, delete_or_default_value, exists, copy, and key or value listing, a Hash holds for each key the last value set and not deleted, keys are compared by their full bytes, and growth, collisions and entry reuse are invisible.',
 ['histories','inputs'],'every operation sequence up to the bounded length with all keys up to the bounded length, and collisions in the same bucket',
 'Tests use distinct short keys; collision chains and deletion inside them depend on the hash values.',
 [L+'Hash.spvm',L+'Hash.c',L+'Hash/Entry.spvm'],[('hash table',L+'Hash.spvm')],['get, keys, values, keys_length'])
p('C27','Sorting yields the sorted permutation, stable, in the given range',
 'For every array, comparator order, offset and length, the sort functions leave a permutation that is ordered by the comparator, keep equal elements in their original order, leave elements outside the range untouched, and throw for an invalid range.',
 ['inputs'],'all element values and ranges for arrays up to the bounded length, for each element type',
 'Permutations and range edges grow factorially.',
 [L+'Sort.spvm',L+'Fn.spvm'],[('merge sort',L+'Sort.spvm')],['array contents'])
p('C28','StringBuffer holds exactly the text its operation history defines',
 'For every history of push, push_char, replace, set, set_length, reserve and clone, the buffer\'s string equals the text those operations define, invalid arguments throw and leave it unchanged, and comparison operations agree with string comparison of the contents.',
 ['histories','inputs'],'every operation sequence up to the bounded length with all offset and length arguments and byte contents',
 'Capacity and offset combinations are sampled thinly.',
 [L+'StringBuffer.spvm'],[('buffer operations',L+'StringBuffer.spvm')],['to_string, length'])
p('C29','Packing then unpacking returns the packed values',
 'For every supported template and values, unpack(template, pack(template, values)) returns the same values, the packed bytes have the documented width and byte order, and a template or binary that does not fit throws instead of reading outside its data.',
 ['inputs'],'all element values for each type letter, endianness modifier, count and offset within the bound; all binaries and short templates up to the bounded length',
 'Each template letter has one example.',
 [L+'Packer.spvm',L+'Fn.spvm'],[('template interpretation',L+'Packer.spvm')],['packed bytes','unpacked values','exception'])
p('C30','Formatting produces exactly the text the format describes',
 'For every format and arguments within the bound, the formatted text equals the documented expansion (specifier, flags, width, padding, sign), literal text is copied unchanged, and a missing argument, an argument of the wrong type or an invalid specifier throws.',
 ['inputs'],'all integer arguments, all strings and all formats up to the bounded length for the integer, character and string specifiers',
 'Flags, width and sign combine; tests list a few.',
 [L+'Format.spvm',L+'Format.c'],[('format interpretation',L+'Format.spvm')],['returned string','exception'])
p('C31','Array functions copy, compare and move exactly the requested range',
 'The copy, equality, dump, reverse, slice, memcpy, memmove and memset style functions on arrays and strings read and write exactly the requested element range, equality is true exactly when lengths and all elements are equal, and every range that does not fit throws with nothing changed.',
 ['inputs'],'all 2^32 offsets and lengths, and all contents of arrays up to the bounded length, for each element type',
 'An overflowing offset plus length or a wrong element size is missed by small in-range examples.',
 [L+'Array.spvm',L+'Array.c',L+'Fn.spvm',L+'Fn.c'],[('range checks',L+'Array.c, '+L+'Array.spvm'),('generic memory functions',L+'Fn.c: SPVM__Fn__memcpy')],['array contents','exception'])
p('C32','Read-only strings and immutable lists never change',
 'The bytes of a read-only string and the elements of an immutable list never change after creation, whatever operations, casts, copies, native calls or aliases are used by well-typed code; making a string mutable requires a mutable string and otherwise throws.',
 ['inputs','programs'],'all contents up to the bounded length and every mutating operation offered by the language and the standard classes',
 'The guarantee is about all routes to the object, tests try some.',
 [S+'spvm_api.c',I+'spvm_implement.h',S+'spvm_check.c',L+'Immutable/IntList.spvm'],
 [('read-only flag checks',I+'spvm_implement.h: SPVM_IMPLEMENT_MOVE_OBJECT_CHECK_READ_ONLY_STRING, SPVM_IMPLEMENT_ARRAY_STORE string cases'),('immutable lists',L+'Immutable')],['string bytes','exception'])
p('C33','Control statements execute exactly the documented statements',
 'if, elsif, unless, while, for, for-each, switch, last, next, break, return and the short-circuit operators execute exactly the statements that the documented semantics select, in order, for every value of the conditions, and a switch selects the case equal to the value or the default.',
 ['inputs','programs'],'all values of the conditions and switch operands, loops up to the bounded trip count, in a family of nested programs',
 'Jump targets are fixed per opcode sequence; a wrong one shows on particular combinations, and switch search depends on values between, below and above the cases.',
 [S+'spvm_opcode_builder.c',S+'spvm_op.c',S+'spvm_vm.c',S+'spvm_check.c'],
 [('jump generation',S+'spvm_opcode_builder.c'),('switch search',S+'spvm_vm.c: LOOKUP_SWITCH')],['trace of executed statements'])
p('C34','Failed memory allocation raises an exception instead of corrupting',
 'When the memory allocation of new, new_string_len, a literal, a string concatenation, copy, a conversion between string and byte[] or weaken fails, the operation throws an exception, no partially built object becomes visible, nothing else changes, and execution can continue after the exception is caught.',
 ['fault_sequences'],'failure of the allocation made for the object itself, at each creation operator and copying operator, for all lengths',
 'No test makes an allocation fail.',
 [S+'spvm_api.c',I+'spvm_implement.h'],[('allocation result checks',I+'spvm_implement.h: SPVM_IMPLEMENT_NEW_*'),('object allocation',S+'spvm_api.c: SPVM_API_new_*_no_mortal')],['exception','values of other variables'])
p('C35','Copy, dump, type-name and address operators reflect the object',
 'copy returns an equal but separate object for strings and numeric and multi-numeric arrays, type_name and compile_type_name return the name of the run-time and declared type, and dump returns a text that depends only on the contents, for every value.',
 ['inputs'],'all contents up to the bounded length for each kind of object',
 'One object per kind is tested.',
 [S+'spvm_api.c',S+'spvm_dumper.c',I+'spvm_implement.h'],[('copy',S+'spvm_api.c: SPVM_API_copy_no_mortal'),('dump',S+'spvm_api.c: SPVM_API_dump_no_mortal')],['operator value'])
p('C36','Native value access agrees with the language view of an object',
 'For every value, what native code stores in or reads from fields, class variables, array elements, strings and call arguments through the native interface is what program code sees at the same member, access by an unknown name or wrong type is reported as an error, and calling a method by name passes arguments and results unchanged.',
 ['inputs'],'all values for each member type and each accessor',
 'One value per accessor is tested.',
 [S+'spvm_api.c',L+'Native/MethodCall.c'],[('by-name accessors',S+'spvm_api.c: SPVM_API_get_field_*_by_name, SPVM_API_set_field_*_by_name'),('dynamic calls',L+'Native/MethodCall.c')],['values on both sides','error id'])
p('C37','Shared objects survive concurrent reference changes',
 'When several threads copy, drop, weaken and read references to shared objects, under every interleaving the object stays alive while a thread refers to it, is destroyed exactly once afterwards, and no lock is left held.',
 ['schedules'],'every interleaving of lock, unlock and shared reference-count accesses of two threads with up to a few operations each',
 'A test run observes one schedule.',
 [S+'spvm_api.c',S+'spvm_mutex.c'],[('per-object lock',S+'spvm_api.c: object mutex in inc/dec ref count, weaken'),('lock primitives',S+'spvm_mutex.c')],['object lifetime','lock state'])
p('C38','Small value classes and helpers follow their definitions',
 'Point, Point3D, Complex, Bool, error classes, default comparators, cloners, equality checkers and stringers return what their definition says for every component value, clones are separate and equal, and equality is reflexive, symmetric and consistent with the components.',
 ['inputs'],'all component values, including undef arguments',
 'One or two values per class are tested.',
 [L+'Point.spvm',L+'Point3D.spvm',L+'Complex_2d.spvm',L+'Comparator.spvm',L+'Cloner.spvm',L+'EqualityChecker.spvm'],[('value classes',L+'Point.spvm')],['returned values'])
p('C39','Values cross the Perl boundary unchanged',
 'Every number, string, array and object passed from Perl to a method and back through the exchange interface keeps its value, and an unsuitable Perl value is rejected with an exception without leaking.',
 ['inputs'],'all Perl scalars, arrays and nested structures',
 'Perl values have many internal states; tests use a few.',
 ['SPVM.xs',L+'ExchangeAPI.pm'],[('argument conversion','SPVM.xs: call_method'),('exchange functions',L+'ExchangeAPI.pm')],['Perl values'])
p('C40','Native and precompiled builds are refreshed exactly when inputs change',
 'After any history of edits to class, native source, header or configuration files, building loads code that corresponds to the current files, whatever is left in the build directory.',
 ['histories'],'every sequence of edits and builds',
 'Tests build from a clean directory or once over.',
 [L+'Builder/CC.pm',L+'Builder/Util.pm',L+'Builder.pm'],[('dependency check',L+'Builder/Util.pm: need_generate')],['behaviour of the loaded code'])
p('C41','A generated executable behaves like the program run from Perl',
 'For every program, the executable produced by spvmcc prints the same output and exits with the same status as the program run in the Perl-hosted virtual machine with the same arguments.',
 ['programs','inputs'],'all programs and command lines',
 'A few sample applications are compiled.',
 [L+'Builder/Exe.pm','script/spvmcc'],[('bootstrap generation',L+'Builder/Exe.pm: create_bootstrap_source')],['standard output, exit status'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
