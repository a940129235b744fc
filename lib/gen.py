#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below. A property is claimed when a harness declares a check for it."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
I, H, S, P, F, CFG = 'inputs', 'histories', 'schedules', 'programs', 'fault_sequences', 'configurations'
src = lambda *a: ['src/' + x for x in a]
js = lambda *a: ['src/utils/json/' + x for x in a]
PROPS = []
def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

prop('C01', 'Arguments bind to parameters by the C++ reference and const rules',
     'An argument described by (type, reference kind, constness) can be bound to a parameter exactly when C++ would allow it: same or derived class, a mutable lvalue reference only from a mutable lvalue, an rvalue reference only from an rvalue without dropping const, a const reference or a copy from anything; a user conversion serves parameters that are not lvalue references and a generic value binds to and from everything. The match is reported as exact when no reference or const adjustment is needed (or an rvalue initialises a copy), as partial otherwise, and combining two matches yields the weaker one.',
     [I, P], 'every pair of argument and parameter descriptions over a class hierarchy, pointers, conversions and generic values',
     'The tests list a few dozen pairs by hand; the rule is a function of two types, two reference kinds and two const flags and the unlisted cells are where a change hides.',
     src('argument.cpp', 'argument.h', 'ref_type.h', 'type.cpp'), [('conversion table', 'Argument::isConvertibleTo'), ('combine', 'src/argument.cpp')])
prop('C02', 'Overloaded calls reach the best candidate or are refused',
     'Calling an overload set runs the exactly matching overload if there is one, otherwise the only viable overload, and raises an error without running anything if none or several are viable, whatever order they were registered in. Asking whether a signature is available, or for the function serving it, succeeds exactly when some overload accepts that signature. The outcome is the same whether an argument is passed directly or wrapped in a value.',
     [I, P], 'overload sets of up to three members in every registration order, every argument kind, arbitrary argument contents',
     'Tests call a handful of fixed overload sets in one registration order.',
     src('overloads.tcc', 'overloads.cpp', 'function.tcc', 'function.cpp'), [('best match scan', 'Overloads::call'), ('signature queries', 'Overloads::test/get')])
prop('C03', 'Reflected calls deliver arguments unchanged and with C++ semantics',
     'A call through reflection runs the target once with each argument in its position and with its content intact: reference parameters alias the caller\'s object so that changes are visible to the caller, by-value parameters leave the caller\'s object unchanged, and an rvalue reaches an rvalue reference parameter by moving, never copying. This holds for free functions, const and non-const member functions and functors, whether arguments are passed directly or as values. A call with the wrong arity or an incompatible argument raises an error, runs nothing and leaks nothing.',
     [I, P], 'arbitrary argument contents, every combination of callable kind, parameter kind and way of passing the argument',
     'Tests use a few constants and cannot show absence of copies, leaks or aliasing mistakes on all combinations.',
     src('function.tcc', 'value_function.h', 'cast.h', 'cast.cpp', 'value_function.cpp'), [('type erased call', 'ValueFunctionImpl::call'), ('argument casts', 'Cast<Value, Target>')])
prop('C04', 'Returned values are delivered intact and never dangle',
     'The result of a reflected call equals what the target returned: a returned reference aliases the same object and keeps its constness, and a returned temporary is owned by the resulting value until the last copy of that value is gone, when it is destroyed exactly once. Asking for a result the target cannot provide (a value from a function without result, an unrelated type, a mutable reference to a const or temporary result, a const reference to a temporary) raises an error, and any result can be ignored.',
     [I, P], 'every combination of returned kind and requested kind, arbitrary contents',
     'Lifetime mistakes only show for specific combinations of returned and requested kinds which the tests sample.',
     src('function.cpp', 'function.tcc', 'value_function.h', 'value.tcc', 'cast.h'), [('return check', 'Function::testReturn'), ('storage of temporaries', 'Value::Value(T&&)')])
prop('C05', 'Ambiguous overload registrations are refused',
     'Registering an overload is refused with an error exactly when an already registered overload\'s whole signature is an exact match for it; a refused registration leaves the set as it was, an accepted one adds exactly one callable overload, and overloads of different arity never conflict.',
     [H, P], 'every sequence of registrations within the bounds', 'Tests register a few fixed pairs.',
     src('overloads.cpp', 'function.cpp'), [('ambiguity test', 'Overloads::add')])
prop('C06', 'Values own, share and release their content correctly over any history',
     'Through any sequence of storing, referencing, copying, moving, reassigning (including to itself), rvalue and const views, deep copies, deep moves and clearing, every value reports the right void, stored, const and type status and reads the right content: copies of a value share one object, references alias the original object, deep copies are independent. Owned objects are destroyed exactly once, no earlier than the last value sharing them, and never leak.',
     [H, I], 'every operation sequence over several values within the bounds, arbitrary contents', 'Histories grow exponentially; tests run a few fixed ones.',
     src('value.cpp', 'value.tcc', 'value.h'), [('shared storage', 'Value::storage'), ('copy and move', 'Value::copy/move')])
prop('C07', 'Typed access to a value is allowed exactly for its class and base classes',
     'Reading a value as a type succeeds, and yields the very object the value holds, exactly when the requested type is the held type or one of its base classes (including through pointers to them); any other request raises an error, and a void value refuses every object type.',
     [P, I], 'every pair of held and requested type, stored or referenced, arbitrary contents', 'Tests try a few pairs.',
     src('value.tcc', 'type.cpp'), [('access check', 'Value::as/get')])
prop('C08', 'Class and pointer relations form a consistent hierarchy',
     'A type is a child of another exactly when it is that type, when following parents leads to it, or when both are pointers of the same kind and their pointees are so related; parent-of is the converse, and the relation is reflexive, transitive and never holds between unrelated types or different pointer kinds.',
     [P], 'every hierarchy of a bounded number of dynamically built classes and pointers', 'Tests use one fixed hierarchy.',
     src('type.cpp', 'types/pointer.h', 'types/std/smart_ptr.h'), [('relation', 'Type::isChildOf')])
prop('C09', 'Member lookup finds the nearest declaration and lists each name once',
     'Looking up a field or function by name finds the declaration of the most derived class that has one, testing for a name agrees with looking it up, and an unknown name raises an error; the listings of a class contain exactly the names visible in it, sorted and without duplicates. Lookups for modification only see the class\'s own members.',
     [P], 'every placement of names over a chain of classes within the bounds', 'Tests cover one hierarchy.',
     src('type.cpp'), [('inherited lookup', 'Type::field/function')])
prop('C10', 'Field access aliases the right bytes and inherits constness',
     'Accessing a field of a value by name refers to that very member of the held object, for own and inherited fields: reading yields its current content, writing through it changes that member and nothing else, and the field has the declared type and offset. A field is const exactly when it is declared const or accessed through a const value, and a const field cannot be assigned.',
     [I, P], 'every field of a class hierarchy with members of different sizes, arbitrary object contents and written values', 'Tests set a few fields to constants and do not look at the neighbouring bytes.',
     src('value.tcc', 'field.cpp', 'field.tcc', 'dsl/field.h'), [('field reference', 'Value::field')])
prop('C11', 'Conflicting member registrations are refused and change nothing',
     'Within a class a field name can be registered once and never shares its name with a function, in either order; functions can share a name as overloads; a field of reference type is refused. A refused registration raises an error and leaves the class\'s members as they were, and own members may shadow those of base classes.',
     [H], 'every sequence of registrations within the bounds', 'Tests check no conflicting sequence.',
     src('type.cpp', 'field.cpp'), [('clash checks', 'Type::addField/addFunction')])
prop('C12', 'Casting and converters follow the declared type relations',
     'Casting a value yields the same object for l-value reference targets of its class or a base class, an independent object with the same content for by-value and r-value reference targets, and the result of the declared conversion operator for non l-value reference targets of another type; every other cast raises an error, a mutable l-value reference is never obtained from a const value, and the castable query never answers yes for a cast to a copiable class or to a reference that then fails on a value holding a reference. A converter is reported present exactly when a conversion operator is declared, in the class or a base class, and convert applies it; casts to the own class or a base class never go through a conversion operator.',
     [I, P], 'every pair of held type and target description, arbitrary contents', 'Tests cover a table of selected pairs with constants.',
     src('cast.cpp', 'cast.h', 'type.cpp', 'value.tcc'), [('cast', 'reflect::cast'), ('converter lookup', 'Type::converter')])
prop('C13', 'Qualified names split and join consistently',
     'Splitting a qualified name yields its first (or last) component and the rest, ignoring separators inside template brackets, so that joining the two gives back the name; names with a lone colon outside of brackets or unbalanced brackets in the component being split off raise an error, and no name makes the split read outside of it.',
     [I], 'every name of bounded length over all bytes', 'Tests split a dozen names.',
     src('scope.cpp'), [('splitters', 'Scope::head/tail/join')])
prop('C14', 'Scopes hold exactly what was registered in them',
     'After any sequence of registrations of functions, types and nested scopes under qualified names, looking up, testing for and listing scopes, types and functions reports exactly what was registered under each name, intermediate scopes are created as needed with the right full name, and anything else raises an error or is reported absent without modifying the scope. Calling a registered function by qualified name runs that function.',
     [H], 'every sequence of registrations within the bounds over a set of qualified names', 'Tests use one static scope tree.',
     src('scope.cpp', 'scope.tcc'), [('recursive lookup', 'Scope::scope/type/function')])
prop('C15', 'The registry loads each type once, on first use, under one identity',
     'Looking up a type by name or alias always yields the same type object; its loader runs on the first lookup only, also when loaders look up each other or themselves recursively, and a type never looked up is not loaded. Unknown or empty names raise an error, a repeated registration keeps the first loader, and an alias can be declared once and never redirects to another type afterwards.',
     [H], 'every sequence of registrations, aliases and lookups within the bounds', 'Tests only see the one static registration order.',
     src('registry.cpp', 'registry.h'), [('lazy load', 'Registry::get/load'), ('alias table', 'Registry::alias')])
prop('C16', 'The registry can be used from several threads',
     'Concurrent first lookups, registrations and aliases never race on memory, deadlock or lose an update: all threads obtain the same fully loaded type and its loader runs once, in every interleaving.',
     [S], 'every interleaving of the threads within the context switch bound', 'Tests are single threaded.',
     src('registry.cpp', 'dsl/template.h', 'argument.cpp'), [('registry lock', 'RegistryState::lock')])
prop('C17', 'Traits can be attached once and read back unchanged',
     'A trait attached to a type, field, function or scope is reported from then on with the value it was given, a trait without value has none, other names are reported absent, and the listing contains each attached name once. Attaching a name twice or reading the value of an absent trait raises an error and changes nothing.',
     [H, I], 'every sequence of operations within the bounds, arbitrary values', 'Tests attach a fixed list of traits.',
     src('traits.cpp', 'traits.tcc', 'dsl/type.h', 'dsl/field.h', 'dsl/function.h', 'dsl/scope.h'), [('trait map', 'Traits::addTrait/getValue')])
prop('C18', 'Primitive types behave through reflection as they do in C++',
     'For every primitive number type, constructing, copying, assigning and adding through reflection give the C++ result for every value of the type; size, limits and classification traits are those of the C++ type, and the standard alias names denote the type of that width and signedness. Values are not silently converted between different number types.',
     [I], 'every value of every primitive type', 'Tests look at a few constants of int.',
     src('types/primitives.tcc', 'types/primitives.cpp', 'types/primitive_int.cpp', 'types/primitive_bool.cpp', 'types/primitive_char.cpp', 'types/primitive_short.cpp', 'types/primitive_long.cpp', 'types/primitive_long_long.cpp', 'types/primitive_float.cpp'), [('number reflection', 'reflectNumberImpl'), ('aliases', 'PrimitiveAliases')])
prop('C19', 'Raw and smart pointers behave through reflection as they do in C++',
     'For raw, shared and unique pointers, dereferencing yields the pointed object itself, the boolean test tells whether there is one, pointer and pointee types are reported, and reset, release, get, copy and move keep ownership as in C++: the object is destroyed exactly once, when its last owner lets go. Dereferencing a const or r-value raw pointer gives a const object, and unique pointers cannot be copied.',
     [H, I], 'every operation sequence within the bounds, arbitrary contents', 'Tests follow one sequence per pointer kind.',
     src('types/pointer.h', 'types/std/smart_ptr.h', 'type.cpp'), [('pointer reflection', 'reflectSmartPtr')])
prop('C20', 'Vectors, maps and strings behave through reflection as they do in C++',
     'Any sequence of reflected container operations leaves the container as the same C++ operations would and returns the same results: size, element access by reference, append by copy or move, resize, clear, count, key listing. Checked element access raises an error instead of going out of bounds or inserting, and element, key and value types are reported.',
     [H, I], 'every operation sequence within the bounds, arbitrary contents and indexes', 'Tests follow one sequence per container.',
     src('types/std/vector.h', 'types/std/map.h', 'types/std/string.cpp'), [('container reflection', 'reflectTemplate(std::vector), reflectMap')])
prop('C21', 'Errors carry their whole message and origin whatever their length',
     'An error raised with a formatted message is thrown as a reflection error whose text is the file and line followed by the complete formatted message, for messages of any length; formatting never reads or writes outside its buffers. A default constructed error tests false and any other tests true.',
     [I], 'message lengths around every buffer boundary and arbitrary contents', 'No test formats a long message.',
     src('error.cpp', 'error.h'), [('formatting', 'verrorFormat')])
prop('C22', 'Construction, copy and move through reflection match what the class supports',
     'A class reflects default construction, copy and move construction and assignment and allocation exactly as far as C++ supports them for that class, copiable and movable are reported accordingly, and each constructs or assigns an object with the right content using only the operation asked for. Unsupported operations raise an error and leave the objects and values involved unchanged.',
     [P, I], 'classes with every combination of copy and move support, arbitrary contents', 'Tests check selected classes with constants.',
     src('dsl/plumbing.h', 'dsl/function.h', 'type.cpp', 'type.tcc', 'value.cpp'), [('conditional registration', 'reflectPlumbing')])
prop('C23', 'Operators on values run the reflected operators of the held object',
     'Applying an operator to a value has the effect and result of applying the same operator of the held class to the held object, with operands in order, for assignment, increment and decrement (prefix and postfix), arithmetic, bitwise, logical, comparison, call, index and indirection operators; an operator the class does not have raises an error.',
     [I, P], 'every operator, arbitrary operand contents', 'Tests apply a few operators to constants.',
     src('value.h', 'value.cpp', 'dsl/operators.h'), [('forwarding', 'reflectValueOp* macros'), ('registration', 'reflectOperators')])
prop('C24', 'An object seen as const through reflection is never modified',
     'Apart from raw typed access (as) and explicit casts to a mutable r-value reference, whatever is done through a value that refers to its object as const, the object does not change: mutable member functions, mutable reference parameters, assignment, mutating operators and assignment to its fields are refused with an error, moving out of it copies, and const operations work; the same goes for a const element or pointee obtained from it.',
     [P, I], 'every operation of a reflected class through every way of obtaining a const value, arbitrary contents', 'Tests check a few refusals.',
     src('argument.cpp', 'cast.cpp', 'value.cpp', 'value.tcc', 'types/pointer.h'), [('const flag', 'Argument::isConst')])
prop('C25', 'Printed signatures and descriptions list exactly what was declared',
     'The printed form of an argument is its type name, const if it is const and & or && if it is a reference; a signature lists the result and every argument in order, so different signatures never print the same; a type lists its parent, its traits, each of its own fields once in the order of their offsets with offset, type, name and traits, and each of its own functions once with all its overloads in order of declaration; a scope lists its traits, functions, types and nested scopes, each once and each in the scope it was added to; and nothing else is listed.',
     [I, H], 'every declaration within the bounds', 'Tests print to the error stream and compare nothing.',
     src('argument.cpp', 'function.cpp', 'overloads.cpp', 'field.cpp', 'traits.cpp', 'type.cpp', 'scope.cpp'), [('descriptions', 'print() of Argument, Field, Overloads, Traits, Type and Scope; signature()')])

prop('C26', 'Functions and variables of namespaces are reached through scopes',
     'A global or namespace function reflected in a scope is called, by its name from the scope it belongs to or by its qualified name from any enclosing one, exactly as in C++, overloads included; a reflected variable is read and set through its name, always agreeing with the variable itself, only as its own type, and a constant cannot be set. Names which were not reflected are absent, scopes keep their own traits and listings, and a refused access changes and calls nothing.',
     [I, H], 'every sequence of accesses within the bounds', 'Tests read one variable and call one function.',
     src('dsl/scope.h', 'scope.cpp', 'scope.tcc'), [('global functions and variables', 'reflectScope, reflectGlobalFn, reflectGlobalVar, Scope::call')])
prop('C27', 'Types are named after what they are and each has one identity',
     'References and constness aside (that of pointees included), two C++ types have the same reflected type exactly when they are the same type, and different types have different names; templates and pointers are named after the names of their parameters, in order, and are found by that name once they have been used, whatever the order of first uses; element, key, value and pointee types are those of the parameters.',
     [I, H], 'every pair and order of use within the bounds', 'Tests look a few types up.',
     src('registry.h', 'registry.cpp', 'clean_type.h', 'dsl/template.h', 'types/pointer.h', 'types/std/map.h', 'types/std/vector.h', 'types/std/smart_ptr.h'), [('names of types', 'Reflect<T>::id, typeId, Registry::get, CleanType')])
prop('C28', 'Exceptions of user code pass through reflection and leave nothing behind',
     'When a constructor, an assignment or the body of a function raises an exception while it is run through reflection, by a call, an overloaded call, a construction, a copy, a move, an assignment, a cast, a field read, a container or a pointer, the exception reaches the caller unchanged; no object is leaked, destroyed twice or lost, the values involved still refer to what they referred to with the content the exception left them with, and the same operation succeeds when it is tried again.',
     [P], 'every point of failure of every operation within the bounds, arbitrary contents', 'Tests raise no exception from user code.',
     src('value.cpp', 'value.tcc', 'value_function.h', 'cast.h', 'overloads.tcc', 'type.tcc', 'types/std/vector.h', 'types/std/map.h', 'dsl/plumbing.h'), [('calls', 'ValueFunctionImpl::operator()'), ('copies and moves', 'Value::copy/move')])


prop('J01', 'Parsing arbitrary bytes into any target never misbehaves',
     'Whatever bytes are parsed into whatever reflected target (numbers, text, lists, maps, objects, pointers, untyped values), parsing terminates, reports malformed input as a parse error of the reader, raises nothing else, never touches memory outside of its objects nor exhausts the stack however deep the document is nested (nesting beyond a fixed limit, at least 500 levels, is malformed input), leaves the target a valid object and leaks nothing.',
     [I], 'every byte string of bounded length for every target kind', 'Tests parse a few well formed documents.',
     js('parser.cpp', 'parser.tcc', 'token.cpp', 'reader.cpp'), [('parsers', 'getParser')])
prop('J02', 'The tokenizer accepts exactly the token grammar',
     'Every input is split into the token sequence of the JSON grammar (punctuation, strings, integers, floats, true, false, null, end), with whitespace and, when allowed, comments skipped and the decoded content of each token right; anything else is an error reported once and no input makes the tokenizer read past the end or loop.',
     [I], 'every byte string of bounded length, all reader options', 'Tests tokenize a few strings.',
     js('token.cpp', 'reader.cpp'), [('tokenizer', 'details::nextToken')])
prop('J03', 'A document is accepted exactly when it is well formed',
     'Parsing or skipping a document reports an error exactly when the document is not a well formed JSON value (misplaced, missing or extra separators, unclosed or mismatched brackets, non-text keys, truncation), and never stops silently in the middle of a truncated one.',
     [I], 'every sequence of tokens of bounded length', 'Tests parse well formed documents only.',
     js('parser.tcc', 'parser.cpp', 'reader.cpp'), [('structure', 'parseObject/parseArray/skip')])
prop('J04', 'Text survives being written and read back',
     'Writing any valid UTF-8 text as a JSON string and reading it back yields the same text, with and without unicode escaping and validation; the written form is a single quoted string without raw quotes, and with escaping it is plain ASCII.',
     [I], 'every valid text of bounded length, all options', 'Tests round trip a few strings.',
     js('format.cpp', 'token.cpp'), [('escape', 'formatString'), ('unescape', 'readString')])
prop('J05', 'Invalid UTF-8 is reported when validating, valid UTF-8 never is',
     'With validation on, reading or writing text reports an error exactly when the bytes are not valid UTF-8 (bad headers or continuation bytes, overlong forms, surrogates, values past the last code point, truncated sequences); valid text passes unchanged.',
     [I], 'every byte string of bounded length', 'Tests use a few sequences.',
     js('format.cpp', 'token.cpp', 'utils.h'), [('validation', 'isValidUnicode')])
prop('J06', 'Unicode escapes decode to exactly the code point they denote',
     'Reading an escaped character yields the UTF-8 encoding of the code point, upper and lower case digits alike, surrogate pairs included; unpaired surrogates, missing or non hexadecimal digits and unknown escapes are errors, and without unescaping the text is kept as is.',
     [I], 'every four digit escape and pair of escapes', 'Tests decode a few escapes.',
     js('token.cpp', 'utils.h'), [('unescape', 'unescapeUnicode')])
prop('J07', 'Integers survive being written and read back, out of range ones are errors',
     'Writing any 64 bit signed integer and reading it back yields the same integer, reading any decimal integer text yields its mathematical value when it fits, and a text which does not fit is reported as a parse error rather than wrapped or clamped.',
     [I], 'every 64 bit integer and every digit string of bounded length', 'Tests use a few small numbers.',
     js('format.cpp', 'parser.tcc', 'token.cpp'), [('integers', 'formatInt/parseInt')])
prop('J08', 'Floating point numbers use valid text and non finite ones are errors',
     'A number is read as integer or float exactly according to its text, an integer text is accepted where a float is expected but not the other way round, values too large are parse errors, and writing a number that is not finite reports an error instead of producing invalid JSON.',
     [I], 'every number text of bounded length; every class of floating point value', 'Tests use a few numbers.',
     js('format.cpp', 'parser.tcc', 'token.cpp'), [('floats', 'formatFloat/parseFloat')])
prop('J09', 'Reflected objects survive being printed and parsed back',
     'Printing a reflected object and parsing the text into a fresh object yields equal content, for scalars, nested objects, inherited fields, lists, maps, raw and smart pointers including null ones, in pretty, compact and default style; in compact style a pointer to something empty may come back null, as it is left out.',
     [I, CFG], 'every content of a reflected object graph of bounded size, every style', 'Tests print a single fixture.',
     js('printer.cpp', 'parser.cpp', 'printer.tcc', 'parser.tcc'), [('printers and parsers', 'getPrinter/getParser')])
prop('J10', 'Object keys map to fields as declared, unknown keys are ignored',
     'Parsing an object assigns the value of each key to the field of that name or alias, in any order of keys, the last one winning, and touches no other field; unknown keys are skipped whatever well formed value they have, fields declared as skipped are never read nor written, aliases replace the field name and two fields with the same key raise an error.',
     [I], 'every choice of keys, order and values within the bounds', 'Tests use fixed documents.',
     js('parser.cpp', 'printer.cpp', 'traits.cpp'), [('key maps', 'ObjectParser/ObjectPrinter')])
prop('J11', 'Null resets pointers and leaves everything else alone',
     'Parsing null into a raw or smart pointer makes it null, parsing any other value into a null pointer allocates an object holding it and into a non null pointer updates the pointed object in place; null for an object, list or map leaves it as it was. Null pointers are printed as null.',
     [I, H], 'every sequence of documents within the bounds parsed into the same pointers', 'Tests parse one document.',
     js('parser.cpp', 'printer.cpp'), [('pointers', 'PointerParser/PointerPrinter')])
prop('J12', 'Parse and print errors report the first problem and its position',
     'The error kept by a reader or writer is the first one raised, later ones do not replace it, and a reader\'s error starts with the line and column reached; lines are counted across newlines and comments. Once in error the reader and writer test false, and the error converts to true exactly when there is one.',
     [I], 'every malformed input of bounded length', 'Tests look at no message.',
     js('reader.tcc', 'reader.cpp', 'writer.tcc', 'token.cpp'), [('first error', 'Reader::error/Writer::error')])
prop('J13', 'Untyped parsing builds the matching value tree',
     'Parsing a document into an untyped value yields a stored value of the kind of the document: void for null, bool, 64 bit integer, double, text, a list of values or a map of values, recursively with the same content.',
     [I], 'every document of bounded size', 'Tests parse one document.',
     js('parser.cpp'), [('generic values', 'ValueParser')])
prop('J14', 'Printed documents are well formed in every style',
     'Whatever reflected value is printed, the text is a single well formed JSON document; styles only differ in insignificant white space and omitted empty fields, object keys are sorted, and indentation is four spaces per level.',
     [I, CFG], 'every content of bounded size, nesting and style', 'Tests compare two fixtures.',
     js('printer.tcc', 'printer.cpp', 'writer.cpp'), [('layout', 'printObject/printArray')])
prop('J15', 'Peeking at a token never changes what is read',
     'Peeking any number of times returns the token the next read returns, with the same content, consumes nothing else, and the sequence of tokens read is independent of where one peeks; expecting a token returns it when it is the expected one and otherwise reports an error.',
     [I, H], 'every input of bounded length and every placement of peeks', 'Tests never compare both.',
     js('reader.cpp'), [('look-ahead', 'Reader::peekToken/nextToken')])
prop('J16', 'Empty fields are omitted exactly when asked for',
     'A field is left out of a printed object exactly when it is empty (zero, empty text or container, null or pointer to something empty) and either the style is compact or the field is declared to be skipped when empty; booleans and objects are never empty and no other field is ever dropped.',
     [I, CFG], 'every combination of empty and non empty fields, declarations and styles', 'Tests compare two fixtures.',
     js('printer.cpp', 'traits.cpp'), [('emptiness', 'Printer::isEmpty, skipFn')])
prop('J17', 'Custom parsers and printers are used wherever their type occurs',
     'A type with declared custom parser and printer is read and written by exactly those functions, on its own or as a field, element, map value or pointee, and their errors are reported by the reader or writer; combining field declarations keeps every one of them.',
     [P, I], 'every position of a custom type, arbitrary contents', 'Tests use one field.',
     js('parser.cpp', 'printer.cpp', 'traits.cpp'), [('custom functions', 'CustomParser/CustomPrinter')])
prop('J18', 'Documents can be parsed and printed from several threads',
     'Threads parsing and printing their own documents at the same time, first uses of a type included, never race or deadlock and each gets the result it would get alone.',
     [S], 'every interleaving of the threads within the context switch bound', 'Tests are single threaded.',
     js('parser.cpp', 'printer.cpp'), [('parser cache lock', 'getParserLocked/getPrinterLocked')])
prop('J19', 'Parsing into a target that has content updates it',
     'Parsing into a target which has content replaces numbers, booleans and text, adds the items of a list after those it has, sets the map entries the document names (the last one wins, an entry is replaced as a whole) and the object fields it names (nested objects and objects behind pointers are updated in place), and leaves every other entry, item and field as it was; a document which turns out to be wrong has the effect of what precedes the error, may reset the very scalar at fault, and has no other effect.',
     [I, H], 'every content of the target and every document of bounded size', 'Tests parse into empty targets.',
     js('parser.cpp', 'parser.tcc'), [('updates', 'ArrayParser, MapParser, ObjectParser')])
prop('J20', 'Exceptions of user code pass through parsing and printing',
     'When a constructor, an assignment or a custom parsing or printing function raises an exception while a document is parsed or printed, the exception reaches the caller unchanged; no object is leaked or destroyed twice, members which the document does not name are left alone, what was printed is the start of the document, and later parsing and printing of the same types works as if nothing had happened.',
     [P], 'every point of failure for every kind of member, on first or later use of the types', 'Tests raise no exception from user code.',
     js('parser.cpp', 'parser.tcc', 'printer.cpp', 'printer.tcc'), [('parsers', 'PointerParser, ArrayParser, MapParser, CustomParser')])
prop('U01', 'Configuration paths and merges are consistent',
     'A configuration assembled from several documents holds for each path the value of the last document that sets it, and looking a path up yields exactly that value.',
     [H, I], 'every set of documents', 'There is no test for the configuration utilities.',
     ['src/utils/config/config.cpp', 'src/utils/config/path.cpp'], [('merge', 'src/utils/config')])

NA = {'U01': 'The configuration utilities are not part of the build and do not compile at this commit (missing headers and declarations), so there is no code whose behaviour could be encoded.'}
LEVEL_NOTE = ('Bounded: the clang-18 -O1 bitcode of the real sources and headers is executed symbolically from public API entry points; inputs are symbolic variables, z3 decides every branch and assertion over all values within the bounds printed in the evidence. '
              'Counterexamples are replayed on a natively compiled build with sanitizers. Trusted: the engine, the models of libc, std exceptions, hashing, tree rebalancing and streams in runtime/ (cross-checked by replaying sampled path models natively), allocation never fails.')

def main():
    checks = check.load_checks()
    ids = [p['id'] for p in PROPS]
    assert len(set(ids)) == len(ids)
    unknown = [c for c in checks if c not in ids]
    assert not unknown, unknown
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    na = [dict(property=i, reason=NA.get(i, 'No check built yet.')) for i in ids if i not in checks]
    man = dict(version=1, setup_cmd='python3 check.py --setup', checks=[dict(
        property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
        technique=('symbolic execution of LLVM bitcode over all bounded thread interleavings, SMT (z3)' if checks[i][0]['mode'] == 'threads' else 'symbolic execution of LLVM bitcode, SMT (z3)'), level='model_checking', level_note=LEVEL_NOTE) for i in ids if i in checks],
        not_applicable=na, notes='See DESIGN.md. check.py --replay FILE reproduces a counterexample against the real code.')
    json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(man['checks']), 'checks,', len(na), 'not applicable')
main()
