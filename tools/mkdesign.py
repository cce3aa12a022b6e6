#!/usr/bin/env python3
"""Assembles DESIGN.md: the head, one section per property (method here, bounds from the harness header, cost from
the last evidence), findings, corrections of the machinery and the table of planted changes."""
import json, re, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = {
'C01': "Generated methods (tools/gen_ops.py) apply each operator to each operand type pair in each place (local, field, element, class variable, reference, literal). Oracle: the documented promotion followed by 64-bit/32-bit wrap-around arithmetic written in the harness; division by zero must throw and leave the target unchanged. Tests use a few values; the solver covers all 2^64 pairs per operator.",
'C02': "As C01 with shifts, ~, &, |, ^ and their special assignments; the oracle shifts unsigned bit vectors.",
'C03': "Comparison and condition opcodes on symbolic operands; IEEE order with NaN in the solver's floating-point theory. Conditions of `if`, `!`, `&&`, `||`, `unless`, loops on every condition type.",
'C04': "Every numeric conversion; oracle C conversion semantics over the solver's FP theory, decimal texts for conversions from and to strings built by an independent routine. strtod/strtof are uninterpreted functions of the text handed over (their values are libc's business).",
'C05': "Concatenation, comparison, length, copies, new_string(_len) on symbolic byte arrays; oracle compares byte sequences. The engine's memory model makes any over-read or missing NUL terminator visible.",
'C06': "A symbolic 32-bit index and symbolic length; in range the exact element changes and no other, outside an exception and nothing changes.",
'C07': "Symbolic length; allocation failures above the modelled limit are part of the environment. Content is looked at with one symbolic index.",
'C08': "Generated classes with many fields; one symbolic store, all others compared. Layout collisions show up as changed neighbours, misaligned or out-of-object offsets as memory errors. The generated C code uses offsets resolved at run time, so both engines are checked.",
'C09': "Generated methods with many locals whose live ranges share stack slots; each statement is mirrored in C in the harness (tools/gen_locals.py) and all results compared symbolically.",
'C10': "The type matrix is decided by an independent assignability oracle from the language documentation (class chain, interface sets, dimension rules). Type tests run cold-cache and after one another, because the op code caches.",
'C11': "Random programs (tools/gen_exc.py) with their control flow mirrored by goto in C; symbolic conditions.",
'C12': "As C11 with objects; the oracle counts destructor runs per object, block balance through the environment's memory counters, and the engine detects use after free and double free.",
'C13': "As C11 over weaken/unweaken/isweak. The oracle is a graph of strong counts kept by the generator's C mirror.",
'C14': "Native API (`enter_scope`, `leave_scope`, `push_mortal`…) called in all sequences; oracle a stack of lists of live objects.",
'C15': "Generated hierarchy, static type × run-time class × argument count; oracle resolves methods from a table in the harness. The recursion limit is checked on both sides of 1000.",
'C16': "Differential: the same random program once in spvm_vm.c, once in the precompiler's C, each on its own symbolic run with the same symbolic inputs; all outputs compared in one query. Needs no other oracle.",
'C17': "The tokenizer and the constant handling run symbolically over a source text with free bytes; oracle evaluates the literal with independent arithmetic (128-bit) and an independent grammar for accept/reject.",
'C18': "As C17 for string and character literals, escapes, variable expansion and here documents.",
'C19': "No functional oracle: compile the text and require absence of memory errors, failed assertions and endless loops (step limit). Free bytes inside a syntax-covering corpus.",
'C20': "Two compilations in one compiler, compared with the state (basic types, class files, id counters) and the result of compiling the fine class alone.",
'C21': "SPVM_LIST / SPVM_HASH / SPVM_STRING_BUFFER called directly on symbolic histories against array and association-list models; hash collisions made by replacing the hash function by free values as well as with the real one.",
'C22': "Encoding then decoding for every 32-bit code point; decoding of arbitrary bytes against an independent table of well-formed sequences (Unicode 3-7).",
'C23': "Fn string functions on symbolic strings against direct definitions; 32-bit symbolic offsets find overflowing range checks.",
'C24': "As C23 for numbers and character classes.",
'C25': "List classes: operation histories against a plain C array; `reserved` capacity and stale elements are visible through resize.",
'C26': "Hash: histories against an association list. Hash values are made free by a replaced hash function (all keys one bucket, or every assignment of small values) so growth and collision chains are covered independent of the real function; the real function is checked by itself.",
'C27': "Sort: the result must be the stable sort for a consistent comparator (checked against the definition: permutation + order + stability tags), and a permutation for an adversarial one.",
'C28': "StringBuffer: histories against a byte array with capacity arbitrary.",
'C29': "Packer: pack against independent byte layout; unpack(pack(x)) = x; arbitrary templates and binaries for memory safety.",
'C30': "Format: text against an independent formatter of the documented grammar; the float conversion text is libc's (uninterpreted).",
'C31': "Array functions against direct definitions on symbolic arrays; 32-bit free ranges.",
'C32': "All ways to obtain a mutable view on a read-only string (casts, arguments, fields, elements, callbacks, interfaces, library writers) must throw and leave the bytes; immutable lists keep their elements.",
'C33': "436 generated control-flow programs (tools/gen_c33.py), each mirrored in C with gotos; the trace value (a symbolic hash of the executed statements) is compared for all argument values, interpreter and precompiled.",
'C34': "Each of the next 12 allocations fails in turn (and, separately, every allocation of a construct) under every language construct that allocates: the construct throws or completes, nothing is dereferenced, and dropping everything frees every block. Boxing of a number, number to string, type_name and dump under a failed allocation are outside the statement: the API returns NULL there and its native callers do not check.",
'C35': "copy, dump, type_name, basic_type_id, isa and args_width against independent definitions: dump text is produced by a writer in the harness that walks its own description of the graph, strings by the table of well-formed UTF-8 sequences.",
'C36': "Every native accessor on every member type: what one side stores the other side reads (converted as documented), wrong types, unknown names and wrong invocants give an Error id and an exception and change nothing; Native::MethodCall for every argument value, object kind against parameter type, the current and another stack.",
'C37': "Two threads run as fibers of the executor on the real reference-count, weak-reference and lock code; which operation each thread does and which thread runs next at a switch point are choices the executor branches over exhaustively, with a bound on preemptive switches (context-bounded exploration). Switch points are every lock acquisition (pthread_rwlock_* are replaced by a lock model that also finds self-deadlock, deadlock, and unlocking of a free lock) and every unlocked access to ref_count, weaken_backref_head and memory_blocks_count, which compiler instrumentation (-fsanitize-coverage=trace-loads,trace-stores) of the compiled sources reports. The operations act on object state that a schedule fixes completely, so most of the deciding is path enumeration by the executor with few solver queries; violations are replayed with native threads forced into the same schedule. Outside: weak memory effects, and making a strong reference out of a weak one while another thread drops the last strong one (the lock protocol does not promise that).",
'C38': "Small helper classes (Point, Point3D, Complex_2*, Comparator, Cloner, EqualityChecker, Scope::Guard, Error classes, Fn grep/map) against direct definitions.",
'C42': "Pairs of operators in every spacing; the oracle parses by the documented precedence table written in the harness.",
}
exec(open(os.path.join(R, 'tools/design_extra.py')).read())
out = [open(os.path.join(R, 'tools/design_head.md')).read().rstrip(), '', '## Properties', '']
man = json.load(open(os.path.join(R, 'MANIFEST.json')))
na = {e.get('id') or e.get('property'): e['reason'] for e in man.get('not_applicable', [])}
for l in open(os.path.join(R, 'properties.jsonl')):
    p = json.loads(l); i = p['id']; f = os.path.join(R, 'harness', i + '.c')
    out.append('### %s %s' % (i, p['title'])); 
    if os.path.exists(f) and i in M:
        bs = []
        for g in sorted(glob.glob(os.path.join(R, 'harness', i + '*.c'))):
            m = re.search(r'/\*vp\s*(\{.*?\})\s*\*/', open(g).read(), re.S); bs += json.loads(m.group(1)).get('bounds', []) if m else []
        out.append(M[i]); out.append('Bounds: ' + '; '.join(bs) + '.')
        jobs = len(set(re.findall(r'^\s*(?:JOBV|JOB2|JOB)\(?\s*(\w+)', open(f).read(), re.M)))
        if i in COST: out.append('Cost of quick: ' + COST[i] + '.')
    else: out.append('Not applicable: ' + na.get(i, '(see MANIFEST.json)'))
    out.append('')
out.append(TAIL)
out.append('## Planted changes and the checks that catch them'); out.append('')
out.append('| change | property | what it needs | caught by |'); out.append('|---|---|---|---|')
for m in sorted(glob.glob(os.path.join(R, 'seeded/*/meta.json'))):
    d = json.load(open(m)); s = os.path.basename(os.path.dirname(m))
    out.append('| %s | %s | %s | %s |' % (s, d['property'], d['needs'].replace('|', '/'), CAUGHT.get(s, d['property'])))
open(os.path.join(R, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
