COST = {}
CF = os.path.join(R, 'tools/design_cost.json')
if os.path.exists(CF): COST = json.load(open(CF))
for f in glob.glob(os.path.join(R, 'evidence/C*.json')):
    e = json.load(open(f)); c = e['coverage']
    if e['tier'] == 'quick' and not e['violations'] and not os.environ.get('KEEP'): COST[e['property']] = '%d s, %d paths, %d queries, %d functions of the code under test encoded' % (e['wall_s'], c['states'], c['queries'], c['functions_encoded'])
json.dump(COST, open(CF, 'w'), indent=0, sort_keys=True)
CAUGHT = {}
TAIL = """## Genuine defects found
All are listed with their commits in known_findings.jsonl (`fixed:` lines). The ones with most weight:
* run time: INT_MIN / -1 and % -1 killed the process (C01); precompiled code compiled without -fwrapv differed from the
  interpreter on overflow (C16); exceptions before a nested eval jumped to the wrong handler (C11); a stale stack value for
  missing optional arguments (C15); `(mutable string)` of any object (C10); multi-numeric arrays of huge length (C07);
  a read-only string given to a mutable argument through an interface (C32).
* compiler: numeric literals (C17), `{$x}` in a string looped forever, backslash at the end of a source read beyond it
  (C18), fixed-size buffers for long names, anonymous methods in anonymous classes, `$@++`, nameless classes (C19), state of a
  failed compilation leaking into the next one (C20), `<`/`>` swallowing the next character (C42).
* library: overflowing range checks in Fn, Array, List classes, Sort, StringBuffer, Packer (memory-unsafe), Hash losing weak
  flags when it grows (C26), Packer byte order / hex strings / `H*` (C29), Format heap over-read, sign padding (C30),
  Array#repeat, Array#equals on NaN and -0.0 (C31), Immutable::DoubleList#to_array (C32).
* native interface: a method that returns undef crashed Native::MethodCall, an Int was taken for an Int[] argument, a call
  on another runtime stack lost its result, get_field_string_chars_by_name read an int field as a pointer (C36); dump of an
  array that contains itself overflowed the C stack, type_name of undef leaked (C35); a failed allocation in weaken,
  concatenation, copy and string/byte[] conversion dereferenced NULL (C34).

Known findings that are not repaired (KNOWN-FINDING lines):
* C24 `Fn->is_blank`: true for every code point below 9 and above 32; the existing test suite asserts part of the wrong
  behaviour, so the repair would need an edited test.
* C32 `alias` (interpreter and precompiled): a string made read-only still changes through a mutable variable that was
  assigned before, because the check is static for such variables; repairing it costs a check on every character store.

## False alarms and corrections of the machinery
* Temporaries are released at the end of the enclosing scope, not of the statement (C12): the first model was too strict.
* The first call of a method grows the call-frame memory: jobs call it once before counting blocks (warm-up).
* Shift amounts outside 0..width-1 and float to integer casts out of range are undefined in C: excluded from C02/C04/C16
  except for memory safety.
* C17: `0- 1` and separators such as `10_e_-_12` are accepted by the tokenizer; the first grammar of the oracle was
  stricter than the documentation.
* C18: free source bytes are limited to printable ones (a source with control bytes is C19's subject).
* C42: modulo follows the sign of the divisor (as documented, as in Perl); `$a-1` without spaces is excluded because the
  documentation allows both readings.
* C26: a replaced hash function puts keys into chosen buckets; the oracle does not look at the order of keys.
* C31: shuffles and equality are compared with answers of the checker that the harness gives; a pinned input
  (vp_pin) is stated as a bound.
* C33: `$@` keeps its value after an eval block and the execution of the next statement may see it.
* C38: a Point compared with a Point3D is not specified; `Error::Unicode::InvalidUTF8` does not extend `Error`.
* Ambiguities between documentation and code are left out of the oracles (they are marked in the harness headers): arrays
  shorter than the count (C29), `%s` with a width greater than a cutting precision, "%." without digits, padding of
  inf/nan, a precision on integers, widths that overflow int (C30).
"""
