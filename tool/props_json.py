prop('J01', 'The C JSON parser accepts exactly the grammar and records every value',
     'rexjson_parse_buffer: each token is the longest match of the lexer at the place reached and nothing outside of the buffer is read. A token is passed over exactly where the JSON grammar has it (white space anywhere between tokens); any other token stops parsing with an error placed at that token. Every value gets a BEGIN record when it starts and an END record with the same contents when it is complete, nested like the values: its type as the token says, the place and size of its text (for arrays and objects up to and including the closing token), and the place and size of its name as a member of an object, else 0. Records are written only while there are records left, else the error is REXJSON_E_NOMEM; a value is read only while levels are left, else REXJSON_E_MAXRECURSIONS, and each finished value gives its level back. Success returns the size of the outermost value.',
     ['inputs'], 'all texts, record counts and level counts', 'No test links the C parser; texts that end early, lack of records at one particular record, and errors deep in a nest are beyond samples.', ['rexjson/rexjson.c', 'rexjson/rexjsondfa.rexcc'],
     [('parser', 'rexjson/rexjson.c rexjson_parse_buffer'), ('tokens', 'rexjson/rexjsondfa.rexcc')],
     'interprocedural explicit-state dataflow against a grammar automaton', 'The parser functions are run from rexjson_parse_buffer over abstract states, with one summary per function and abstract entry state (recursion by fixpoint). The automaton of the JSON grammar with its stack of open containers goes along as ghost state: a token passed over must be one the grammar has there, an error must be raised only where it has none. Record fields are tracked as places and sizes of numbered values; levels and record counts relative to those of the value. The tokenizer is run against the longest-match law.',
     note='Assumes that sizes do not exceed INT_MAX, and that the lexer description is compiled faithfully.')
prop('J02', 'Navigation in JSON records stays inside and finds the right record',
     'rexjson_recordtree_firstchild returns the index of the record right behind the given one if both exist and are BEGIN records, else a negative number. rexjson_recordtree_next returns the index of the record right behind the END record that balances the given BEGIN record, if that is a BEGIN record, else a negative number; a record of type NONE ends the records. Neither reads a record outside of the array, whatever index is given.',
     ['inputs'], 'all record arrays and indices', 'No test navigates the records of the C parser; an array filled to the last record and a negative index are what breaks.', ['rexjson/rexjson.c'],
     [('navigation', 'rexjson/rexjson.c rexjson_recordtree_firstchild, rexjson_recordtree_next')],
     'explicit-state dataflow over record positions', 'Each function is run over abstract states in which indices and nesting depths are counted from the first record whose mark is not known; every read must be known to be inside, and each result is compared with an automaton that walks the same marks.')
prop('J03', 'A C++ JSON value stores what its type says and owns it alone',
     'Whenever a member function of rexjson::value returns, the storage of each value involved is the one its type names (string, array, object: allocated storage of that class; boolean, integer, real: the scalar of that kind; null: none), owned by that value alone. Constructors and assignments give the type of their parameter and its contents; copies of strings, arrays and objects are deep and leave the original alone; move takes the contents over and leaves null behind. Old contents are destroyed as what they are and released exactly once, not before a new value given by reference, which may be a part of them, has been used. Accessors hand out the contents exactly under the type they have (get_real also an integer) and throw otherwise; they change nothing.',
     ['inputs', 'histories'], 'all values and argument values', 'No test links the C++ library; aliasing between a value and its own elements and leaks of one type do not show in samples.', ['rexjson/rexjson++.cpp', 'rexjson/rexjson++.h'],
     [('values', 'rexjson/rexjson++.cpp rexjson::value')],
     'typestate and ownership dataflow over the member functions', 'Every member function of rexjson::value (and every helper working on values) is run from every type its object and its argument may have, with one summary per function and abstract entry state; types, stores and heap storage (allocated, made as which class from what, destroyed, released) are tracked, and at each return every value must be consistent, owners unique, nothing lost.',
     note='Paths on which an exception passes through are not followed.')
prop('J04', 'The C++ JSON parser reads exactly a JSON value and stores what it says',
     'rexjson::input reads a value of the JSON grammar at the beginning of a text (what follows it is left open; a token that is none, or one the grammar does not have at that place, is refused, and none that it has is). A token is all characters up to where the automaton dies or the input ends, of the kind the state reached there accepts; it is none if that state does not accept, and a character read beyond it is put back. What the tokens say is stored: true, false and null as these, integers as strtoll (base 10) and other numbers as strtod read them, strings without their quotes, decoded, arrays with their elements in order, objects with each value under the (decoded) name read before it. A value is read only while levels are left, each costs one while it is read, and parsing starts with maxlevels. Refusals are exceptions of class std::runtime_error.',
     ['inputs'], 'all texts, nesting to any depth', 'No test links the C++ library; the grammar has unboundedly many texts.', ['rexjson/rexjson++.cpp', 'rexjson/rexjson++.h'],
     [('parser', 'rexjson/rexjson++.cpp input::read_steam, parse_value'), ('tokenizer', 'rexjson/rexjson++.cpp input::get_token')],
     'abstract interpretation of the recursive descent against the grammar', 'The tokenizer is followed in all abstract states (automaton state fresh/accepting/dead, text gathered, character put back). The parser is run against the JSON grammar as a specification automaton with one summary per function and entry state, open containers beyond two set aside: every token passed over must be one the grammar has there, no refusal may meet one it has; at each token the abstract values (where each comes from, into which array slot or under which name it goes) must be what the token says.',
     note='The tokens (the automaton tables) are generated; their agreement with the definitions is not part of it. Exceptions thrown by the standard library are not followed.')
prop('J05', 'Strings of C++ JSON values are decoded when stored and encoded when written',
     'A value that is constructed from or assigned a C string or std::string keeps the decoded string: each escape of one character (quote, backslash, slash, b, f, n, r, t) replaced by its character, each u escape by the UTF-8 encoding of its number (what is no hexadecimal number or a surrogate is left open), all other characters as they are; a backslash that starts no escape is left open. When a string or a name is written each character of it is put out as a JSON code of exactly this character: quote, backslash and control characters as an escape, all others as they are or as an escape. Neither reads characters outside of the string.',
     ['inputs'], 'all strings', 'No test links the C++ library; strings with escapes at the very end, with characters on the bounds of the UTF-8 lengths or with control characters are rarely tried.', ['rexjson/rexjson++.cpp', 'rexjson/rexjson++.h'],
     [('decoding', 'rexjson/rexjson++.cpp value::value(const char *), value::value(const std::string&), value::operator=(const char *), value::operator=(const std::string&)'), ('encoding', 'rexjson/rexjson++.cpp output::write')],
     'explicit-state dataflow over the characters of a string', 'The decoder is the function the four members hand the argument to, the encoders are the functions output hands strings and names to. Each is followed from every position: the window of characters looked at holds concrete values (all 256 for the first, all 256 for the second of an escape), what is put out is kept as bytes or as expressions over the number of an escape, which are evaluated for every number its path admits. What is put out for the characters passed over must be what they stand for; each read must be covered by a check that the text goes on. The members are run over where their string comes from.')
prop('J06', 'The C++ JSON writer puts out exactly the JSON text of a value',
     'output::write puts out for a null, boolean or integer value this literal or number in full, for a real number the number if it is finite and null otherwise, for a string the encoded string in quotes. For an array it puts out all elements in order, for an object all members in the order of the map, each as its encoded name in quotes, a colon and its value, with exactly one comma between two of them; only members that are null are left out, and only if nullprop is false. Elements are written in the same way, to any depth. Blanks (indentation, the line separator) stand between these parts only. output::write(value) returns, and value::write writes with its arguments in their order, the same text.',
     ['inputs'], 'all values', 'No test links the C++ library; a separator that is wrong once a null member comes first, or a number beyond int, shows for particular values only.', ['rexjson/rexjson++.cpp', 'rexjson/rexjson++.h'],
     [('writer', 'rexjson/rexjson++.cpp output::write, value::write')],
     'abstract interpretation against the grammar of JSON texts', 'The writer of one value is run over all kinds of values with the JSON grammar as a specification automaton: each piece of text put out must be one the grammar has next for this kind. Elements are counted from the first one not yet written, with what is known about how many follow, whether it is null and whether null members are wanted; iterators and indexes are positions relative to it. Closing needs that none is left; the recursive call stands for the text of an element. The line separator handed to output is taken for blanks; flags set on the stream before (hex, showpos) are left open.')

prop('J08', 'The lexer of the JSON parsers knows exactly the tokens of JSON',
     'The definitions in rexjsondfa.rexcc give every text exactly the token JSON (RFC 8259) gives it, and no token to any other text: strings in double quotes (no character below 0x20, a backslash only before one of " \\\\ / b f n r t or before u and four hexadecimal digits), integers (an optional minus, then 0 or digits that do not start with 0), numbers that have a fraction, an exponent or both, true, false, null, the six punctuation characters, and white space (blanks, tabs, newlines, carriage returns). Where several definitions match a text the first one counts. The numbers of the tokens are all different.',
     ['inputs'], 'all texts', 'The language of a token is infinite; a text which one definition gains or loses is met by a sample only by luck, and no test runs the lexer.', ['rexjson/rexjsondfa.rexcc'],
     [('lexer description', 'rexjson/rexjsondfa.rexcc')],
     'equivalence of automata', 'The regular expressions of the lexer description are read by the grammar of X06 into one nondeterministic automaton; its subset construction is run side by side with an automaton of the tokens of JSON written down independently, over all character ranges either of them tells apart. In every pair of states reached the token of the first matching definition must be the token of JSON; a pair that differs is reported with a shortest text that leads there. The numbers of the tokens come from the preprocessor.',
     note='That the compiled automaton has the language of the expressions is the subject of X01 to X06; that the parsers take the longest match of J01 and J04.')
prop('J07', 'Properties guard their variables and own what they stand for',
     'property_object and property_range: set_prop needs write access; the check hook gets the new value before anything is stored; then the variable (of a range: each element of the array given, in order, the element with its index) gets exactly the new value, by the accessor that suits its type; nothing beyond the size of a range is touched, an array longer than it is refused with nothing stored; the modified hook is called once, with its context, after everything is stored, and not otherwise. get_prop needs read access and returns the value of the variable, of a range all size elements in order. A duplicate has the same variable, size, rights, hooks and context. A property without object throws in its members; copies of it are empty. A copy or assignment makes an object of its own (duplicate); an object replaced or of a destroyed property is deleted exactly once, and assigning a property to itself keeps it; a move leaves the source empty. The other members hand on to the same member of the object. operator[] of property_map and property_array returns only elements that exist (of this name, of this index), throws otherwise, and creates none.',
     ['inputs', 'histories'], 'all values, ranges, rights and objects', 'No test links the RPC library; a value stored before it is checked, or an object deleted twice, shows for one particular order of calls.', ['rexjsonrpc/property.h', 'rexjsonrpc/property.cpp'],
     [('variables', 'rexjsonrpc/property.h property_object, property_range'), ('ownership', 'rexjsonrpc/property.cpp property'), ('containers', 'rexjsonrpc/property.h property_map, property_array')],
     'interprocedural explicit-state dataflow (typestate of hooks, stores and owned objects)', 'The classes are instantiated for int, long, unsigned char, float, double, std::string, an enumeration and bool. Which field plays which role is read from the constructor: the field that gets its parameter. set_prop, get_prop, access and duplicate are then run over all abstract states: access rights as bits known or not, the event order of check hook, stores, modified hook, and indices counted from the round a loop is in, with the bounds known by the branches taken. The members of property are run with the object empty, present, shared with the argument (self-assignment) and not; what is deleted, duplicated and handed on is typestate.',
     note='Paths on which a hook or the standard library throws are not followed. navigate and enumerate_children of the containers take paths apart as strings and are not part of it.')
prop('J09', 'An RPC request is answered by what its method returns or throws',
     'rpc_server::call answers with an object that has result, id and error. A request that is an object whose method is a string under which a method has been added, and whose params, if it has any, are an array, calls that method once, with the params of the request (empty if it has none) and the mode call was given; the answer has the id of the request (null if it has none), and either what the method returned as result and no error, or, when the method threw an object or a std::exception, no result and as error that object, or an object with its what() as message and RPC_MISC_ERROR as code. Any other request calls nothing and is answered without result and with an error whose message and code say what is wrong: RPC_PARSE_ERROR for a request that is no object, RPC_INVALID_REQUEST for params that are no array or a method that is missing or no string, RPC_METHOD_NOT_FOUND for a method that was not added. Given a text, call answers the request it parses to, or with the error of the parser in the form of a std::exception; given a name, id and parameters, it answers the request made of these. Neither an object nor a std::exception that is thrown on the way leaves call. add registers a method under its name in place of an earlier one, and refuses an empty name and an empty function.',
     ['inputs'], 'all requests and methods', 'No test links the RPC library; requests with one part missing or of another type, for methods that throw, are many combinations.', ['rexjsonrpc/rpcserver.h'],
     [('requests', 'rexjsonrpc/rpcserver.h rpc_server::call, call_method_name'), ('registration', 'rexjsonrpc/rpcserver.h rpc_server::add')],
     'interprocedural explicit-state dataflow with exceptional edges', 'The three call members and add are run over abstract states with one summary per function and entry state. What is known of the request is which members it has and which types they may have; values, objects, arrays and strings made on the way are terms over it. Exceptions thrown here, by the accessors of JSON values when the type may be another, by the parser and by the method (an object, a std::exception, something else) follow the landing pads and the catch clauses that match. At each exit the answer, what was called and what is known of the request are compared.',
     note='Exceptions of the standard library (allocation) are not followed. What the built-in methods help, spec and helpspec answer is not part of it.')
