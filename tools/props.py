#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept readable here)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))

p("C01","Indentation alone decides the shape of a parsed document",
  "Parsing an OGDL text yields exactly one node per scalar, in document order: the scalars of one line form a chain, and a line is a child of the first scalar of the nearest earlier line with smaller indentation (the documented rule, also for irregular dedents). Blank lines, whitespace-only lines and comments, whatever their indentation, never change the shape, and no node is lost, duplicated or re-parented. The result is a tree of nodes of its own: editing one of them, or another result, changes nothing else.",
  ["inputs"],"all sequences of lines (any indentation per line not below that of the first line, 1-3 scalars, blank/whitespace/comment lines, LF or CRLF, spaces or tabs), any depth and width",
  "The nesting is decided by the whole history of indentations; the tests parse twelve fixed documents of at most two lines.",
  ["block.go","event.go","parser.go"],[("recursive tree/line descent on indentation","block.go"),("level list to tree conversion","event.go")],
  [("current level","nesting level at which the next scalar is recorded","event.go")],["FromString(...)","FromBytes","FromReader"])
p("C02","Scalars are read exactly as written: words, quotes, blocks, comments",
  "Every scalar of a document reaches the graph with exactly the content its notation denotes: bare words verbatim, quoted text (double, single or back quotes, also spanning lines, whose continuation lines lose exactly the indentation of the line that opened the quote) verbatim except for an escaped quote, and backslash blocks as their lines with leading indentation removed up to the first line that is not indented deeper. A comment is '#' followed by a space or tab at a scalar position up to the line end and contributes nothing; a block or quoted scalar never disturbs the nesting of the lines that follow it.",
  ["inputs"],"all combinations of scalar notations per line, quote kinds, escapes, runs of backslashes, block bodies and following dedents, at any indentation",
  "The tests read one quoted string, one comment and two blocks, each at the end of a document.",
  ["lexer.go","block.go"],[("Quoted, Block, Comment, String, SpaceMax productions","lexer.go"),("line production","block.go")],None,["FromString"])
p("C03","Parsing does not depend on how the input is delivered",
  "Parsing a document from a reader or a file gives the same graph as parsing it from a string, for every way a reader may legally split the bytes (any short reads, empty reads, data returned together with EOF) and for every document length. In particular nothing is lost, repeated or altered where the input crosses an internal buffer boundary, in texts, templates, paths and expressions alike.",
  ["inputs","schedules"],"all documents x all legal sequences of reader answers; every alignment of every construct with the buffer boundaries",
  "Existing tests only parse inputs of a few bytes from an in-memory buffer that answers in one read.",
  ["lexer.go","parser.go"],[("fill / Byte / UnreadByte / Rune / UnreadRune over a sliding buffer","lexer.go")],
  [("buffer, read position, last byte position","sliding window over the stream","lexer.go")],["FromReader","FromString","NewTemplate"])
p("C04","Emitted OGDL text parses back to the same graph",
  "For every graph whose top-level nodes are plain words and whose deeper nodes are arbitrary non-empty printable strings (spaces, newlines, tabs, commas, parentheses, any quote characters, non-ASCII, '#'; carriage returns, and strings that both contain a back quote and end in a backslash, are outside the notation), parsing the emitted text yields an equal graph. The emitted text of a scalar result is its content verbatim.",
  ["inputs"],"all trees and all node strings over the representable character set; any depth",
  "Tests compare the emitted text of a handful of fixed graphs and never parse it back.",
  ["graph.go","lexer.go","block.go"],[("Text emitter: quoting and indentation","graph.go"),("Quoted production","lexer.go")],None,["Graph.Text","FromString"])
p("C05","No input text makes a parser or evaluator crash or hang",
  "Parsing any byte string as OGDL (plain or typed), as a path, as an expression or as a template terminates without a panic, and so does evaluating or rendering the result against any graph, including a nil one. Emitting any parsed graph as text, binary, JSON or HTML also terminates without a panic.",
  ["inputs"],"all byte strings",
  "Tests use only well-formed inputs.",
  ["block.go","flow.go","lexer.go","expression.go","eval.go","template.go"],[("recursive descent productions","flow.go, block.go, template.go"),("syntax tree construction","expression.go"),("evaluation","eval.go")],None,["FromString","FromStringTypes","NewPath","NewExpression","NewTemplate","Eval","Process"])
p("C06","Typed parsing converts exactly the unquoted scalars",
  "Typed parsing gives a graph of the same shape as plain parsing; every unquoted scalar that reads as an integer, a floating point number, or true/false is stored as int64, float64 or bool with that value, and every other scalar, in particular every quoted one and every block, stays the same string.",
  ["inputs"],"all documents and all scalar spellings, quoted or not, in every position",
  "Tests check one integer spelling and one quoted digit.",
  ["lexer.go","block.go","parser.go"],[("ScalarType production","lexer.go")],None,["FromStringTypes"])
p("C07","Binary encoding round-trips",
  "Decoding the binary encoding of a graph yields a graph of the same shape with the same content rendered as strings, for any depth and width; nodes with empty content are transparent (their children take their place). The encoding of a graph is a complete stream: the fixed header, its nodes in order with their levels, and one end mark. A decoded graph is a tree of nodes of its own.",
  ["inputs"],"all trees, including depths beyond each variable-length-integer width; all node strings without NUL that do not start with byte 0x01; all scalar Go types as content",
  "Tests encode a two-node graph; the varint test cannot fail (its conditions are joined with && instead of ||).",
  ["binary.go","event.go"],[("bin, newVarInt / varInt","binary.go"),("AddAt, Tree","event.go")],None,["Graph.Binary","FromBinary"])
p("C08","Binary decoding accepts exactly well-formed streams, however delivered",
  "Decoding any byte sequence terminates, without a panic and with memory proportional to the input: a well-formed stream (text nodes, binary nodes, levels that grow by at most one) gives exactly the tree it denotes and consumes exactly its bytes, and anything else, in particular any stream cut or failing before its end mark, gives nil rather than a partial graph. The result is the same from bytes, from a file, from a reader with arbitrary short reads, and from a shared buffered reader holding several consecutive objects.",
  ["inputs","fault_sequences"],"all byte sequences; every truncation point; every split into reads; read errors at every position",
  "Tests decode two well-formed streams of 9 and 10 bytes.",
  ["binary.go","event.go"],[("parse, line, varInt, read","binary.go")],[("bytes-read counter","used to find the next object","binary.go")],["FromBinary","FromBinaryReader","FromBinaryBufioReader","Log.Get"])
p("C09","A log returns every stored object at the position it was given",
  "After any sequence of adding graphs or binary objects, reading and reopening, each position returned by an add retrieves an equal object (and, in binary form, the identical bytes), and reading returns as next position exactly the position of the following object, so that walking from 0 visits all objects once in insertion order and then reports the end. Reading never changes the log, and writing after reading at any position still appends. What was read stays as it was read, whatever is read or added later.",
  ["histories"],"all interleavings of Add, AddBinary, Get, GetBinary, Sync, SetSync, Close/reopen; objects of any size",
  "One test adds three copies of one object to an empty log, reads them once in order, and never looks at the next position returned by the binary read.",
  ["log.go","binary.go"],[("append at end, seek and parse at position","log.go")],[("file offset","shared between reads and appends","log.go")],["Log.Add","Log.AddBinary","Log.Get","Log.GetBinary"])
p("C10","Objects acknowledged by a synced log survive any crash",
  "With automatic syncing on (the default), once an add has returned, a crash at any later moment leaves that object readable at its position after reopening; with it off, the same holds once an explicit sync has returned. A crash in the middle of an add never damages earlier objects, an incompletely written object is not returned as if it were an object when the log is reopened, and objects added after the restart are readable at the positions returned for them.",
  ["crash_points","histories"],"all short histories of adds, syncs and sync-mode changes x every crash point x every subset/torn prefix of unsynced writes",
  "No test simulates a crash, nor observes whether or when the file is synced.",
  ["log.go","binary.go"],[("write then fsync before returning","log.go")],[("auto-sync flag","","log.go")],["OpenLog","Log.Add","Log.Sync","Log.Get"],"none in /repo: the check compiles the log against a simulated disk by rewriting its file-system import in a build overlay")
p("C11","Path lookup returns exactly the addressed node",
  "Looking up a path returns the node reached by following, element by element, the first child with each given name, the child at each given index, or for a name followed by {} or {n} the children of all or of the n-th (from 0) siblings with that name; when any step does not exist the result is a nil graph. An index at the end of a path gives a node that holds the addressed one. Lookup from Go and evaluation of the same path in an expression or template address the same node, and quoted names work like plain ones; a parenthesised expression in the place of a name stands for the name that it evaluates to. The list that an index or a selector gives belongs to the caller: editing it does not change the graph, nor the reverse. (A selector directly after an index or another selector, and the pseudo names _len, _this, _thisString, _string and _json, are not covered.)",
  ["inputs"],"all graphs (repeated names, any depth and width) x all paths of names, indexes and selectors",
  "Tests look up about fifteen fixed paths, none missing by index, none longer than two elements after an index.",
  ["eval.go","flow.go","graph.go"],[("getPath / evalPath","eval.go"),("Path, Index, Selector productions","flow.go")],None,["Graph.Get","Graph.Eval","Graph.GetString"])
p("C12","Set changes exactly the addressed node and nothing else",
  "After setting a path to a value, looking up that path yields the value; missing nodes along the path are created at the end of their parent, an existing target has its children replaced, an index addresses (and if needed extends to) that position (up to 2^24). Every node outside the addressed subtree keeps its content, order and identity, whatever the sequence of earlier operations, and a name set from a graph (not one that leads back to the target) receives that graph's children.",
  ["histories","inputs"],"all sequences of Set over names and indexes on all small graphs",
  "Three examples set one path each on a three-node graph.",
  ["graph.go"],[("set","graph.go")],None,["Graph.Set","Graph.Get"])
p("C13","Graph editing operations behave like edits of an ordered tree",
  "Any sequence of adding, adding nodes of another graph, get-or-create, create, node-set, delete by content, delete by index, clear, merge, substitute and copy leaves each graph equal to an ordered-tree model to which the same edits were applied, with the documented return values. No edit affects a graph or node other than the one it is applied to and nodes deliberately shared with it.",
  ["histories"],"all operation sequences up to a depth over graphs with repeated, missing and nested names",
  "Tests apply single operations to fresh graphs; aliasing between sibling slices only shows after several operations.",
  ["graph.go"],[("Add, AddNodes, NodeOrNew, NodeSet, Create, Delete, DeleteAt, Clear, Merge, Substitute, Copy","graph.go")],[("Out","ordered children slice","graph.go")],["Graph methods"])
p("C14","A clone or copy equals its source and is independent of it",
  "A clone (and a graph copied into an empty graph) is equal to its source in shape, order, content and content types, including nodes without content. No later sequence of edits to either one, at any depth, is visible in the other, and equality holds exactly when shape, order and content agree.",
  ["histories","inputs"],"all graphs (any content types, empty nodes) x all edit sequences on either side",
  "One test copies a four-node graph and never edits it afterwards.",
  ["graph.go"],[("Clone, Copy, Equals","graph.go")],None,["Graph.Clone","Graph.Copy","Graph.Equals"])
p("C15","Reading a graph never changes it",
  "Looking up, converting, listing, searching, comparing, validating, emitting (text, tree view, binary, JSON, HTML) and evaluating or rendering anything without assignments or loops leaves the graph, down to content types and child order, exactly as it was, and leaves the path, expression, template or schema used unchanged too. Repeating any sequence of such reads gives the same answers each time.",
  ["histories","inputs"],"all graphs x all sequences of read operations",
  "Tests never compare a graph before and after a read.",
  ["graph.go","encoding.go","gettypes.go","eval.go","schema.go","html.go"],[("read-only traversal; JSON temporarily replaces the root content","encoding.go")],None,["Graph.JSON","Graph.Get","Graph.Eval","Graph.Text"])
p("C16","Typed accessors convert content by the documented rules",
  "For content of every supported type (all integer and float widths, bool, string, bytes) the typed accessors return the documented conversion of the first child (or of the node itself for the This variants): integers and integer strings as int64, numeric strings as float64, true/false as bool, anything as string (numbers as booleans are not covered). When the content is missing or not convertible they return the given default, else the documented zero value, and the path variants return an error; string lists contain one entry per child in order.",
  ["inputs"],"all content types x boundary values and spellings x all accessors x defaults",
  "Tests convert about ten values, none at a type boundary and almost none failing to convert.",
  ["gettypes.go"],[("_int64f, _float64f, _boolf, _string, number","gettypes.go")],None,["Int64","Float64","Bool","String","Strings","StringCSV","StringTxt","Scalar","GetInt64","..."])
p("C17","Absent data is safe to chain on",
  "Looking up something absent never panics, and calling any read accessor, further lookup or emitter on the resulting nil graph (or on a graph with no children) never panics either: it returns the given default, or the documented empty value. The same holds for graphs with positions skipped by index assignment.",
  ["inputs","histories"],"all method chains up to length 3 from nil, childless and sparse graphs",
  "Tests chain three accessors on one missing node.",
  ["graph.go","gettypes.go","eval.go"],[("nil receiver checks","graph.go, gettypes.go")],None,["Graph methods on nil receivers"])
p("C18","Expressions evaluate with Go precedence and left associativity",
  "An expression over constants and paths evaluates like the fully parenthesised one obtained from Go's operator precedence with left associativity, parentheses and the unary operators ! and -, independently of spacing. Two integers give exact integer arithmetic, an integer with a float gives float arithmetic, + joins strings, comparison follows the type of the left operand, division by integer zero yields no value, and && and || combine booleans. (Mixes of strings and numbers, the order of strings, float remainders and float division by zero are not covered.)",
  ["inputs","programs"],"all expressions up to a number of operators over a typed operand alphabet, all spacings",
  "Tests evaluate some thirty expressions, only one with two operators, none with parentheses or mixed precedence.",
  ["expression.go","flow.go","eval.go","lexer.go"],[("_ast, precedence","expression.go"),("Expression, UnaryExpression, Operator","flow.go, lexer.go"),("evalBinary, calc, compare, logic","eval.go")],None,["NewExpression","Graph.Eval"])
p("C19","Assignments in expressions update the context like variables",
  "Any sequence of assignments (=, +=, -=, *=, /=, %=) evaluated against a graph leaves every path equal to the value a store of variables would hold: the right side is evaluated first in the current state, a compound assignment combines the old value with it, and on a missing variable uses the documented starting value. The right side is a scalar value; names may be quoted. Other variables are never affected, and something that is not a path cannot be assigned to.",
  ["histories","programs"],"all assignment sequences up to a depth over nested paths, operators and operand values",
  "One test assigns in a fixed sequence to a single variable.",
  ["eval.go","graph.go"],[("assign, set","eval.go, graph.go")],None,["Graph.Eval","Template.Process"])
p("C20","Templates render exactly as their control structure says",
  "Rendering a template yields its text verbatim with each variable replaced by its value in the context, with exactly the first true branch of each if/elseif/else chain rendered, and with each loop body rendered once per element in order (the elements that the list has when the loop begins) with the loop variable bound to it, whatever nodes of that name the context had, up to a break, which also works from inside conditionals and ends only the innermost loop. $(...) evaluates without rendering. This holds at every nesting (with different loop variables for nested loops).",
  ["programs","inputs"],"all templates up to a size over text, variables, assignments, if/elseif/else, for, break, with all small contexts",
  "Tests render about ten fixed templates, one with a nested loop and none with break or a conditional inside a loop.",
  ["template.go","eval.go"],[("Template/Text/Variable productions, flow, process","template.go")],None,["NewTemplate","Graph.Process"])
p("C21","A parsed template can be rendered any number of times",
  "Rendering never changes the parsed template: rendering it again, against the same (restored) context or any sequence of other contexts, gives for each context the same output as a freshly parsed template. Parsing the same template text from a string or from bytes gives the same result.",
  ["histories"],"all sequences of renderings of a set of templates over several contexts",
  "Each test renders a template once.",
  ["template.go","eval.go","graph.go"],[("process works on the template graph directly","template.go")],None,["NewTemplate","NewTemplateFromBytes","Process"])
p("C22","Concurrent readers and independent graphs do not interfere",
  "Operations that only read a shared graph, parsed template or parsed path (lookup, conversion, emission in every format, evaluation and rendering without assignments and loops) may run concurrently with each other, and any operations may run concurrently on unrelated graphs: under every interleaving each returns what it returns when run alone, and shared inputs are never modified, not even temporarily. What an operation has returned stays as it is whatever is done later with other graphs and results.",
  ["schedules"],"all interleavings of two operations from the read-only and independent sets, plus absence of data races",
  "No test starts a second goroutine.",
  ["encoding.go","graph.go","eval.go","template.go","parser.go"],[("no package-level mutable state; no temporary mutation of inputs","whole package")],[("root content swapped while emitting JSON","","encoding.go")],["all read operations"],"none in /repo: scheduling points are inserted into a build overlay")
p("C23","JSON import keeps every key and value, deterministically",
  "Importing a valid JSON document yields a graph in which every object key, array element and scalar is present in its place: object members under their key, array elements in order, integers as int64, other numbers as float64, strings and booleans unchanged. The same bytes always yield the same graph, and text that does not begin with a valid JSON value yields an error. (Duplicate keys, lone surrogates, invalid UTF-8 and numbers out of range are not covered.) The result is a tree of nodes of its own.",
  ["inputs"],"all JSON documents up to a size: nested objects and arrays, all scalar kinds",
  "Tests never import JSON.",
  ["encoding.go"],[("toGraph","encoding.go")],None,["FromJSON"])
p("C24","JSON export of records is valid and complete",
  "Exporting a graph of two or more distinct single-valued keys gives valid JSON: one object with exactly those keys and values, whatever characters the keys and strings contain; integers come out as exact JSON integers and finite floats as JSON numbers of the same value. Records in records come out as nested objects, and any other graph still as valid JSON. Exporting the same graph twice gives the same bytes.",
  ["inputs"],"all flat records over a set of keys and values of all scalar types and problematic characters",
  "The two tests print the output without looking at it.",
  ["encoding.go"],[("json, writeString, writeValue","encoding.go")],None,["Graph.JSON"])
p("C25","XML import mirrors the element structure",
  "Importing a well-formed XML document yields one node per element, nested as the elements are, with each attribute as an @name child holding its value, placed before the content, and each non-blank run of text, trimmed, as a child at its position (a run split by a comment or CDATA section may be one child or several). Element names lose accents and have '-' replaced by '_'; comments and processing instructions add nothing. The result is a tree of nodes of its own.",
  ["inputs"],"all small XML documents: nesting, attributes, mixed text, comments, self-closing elements",
  "There is no test for the XML importer or its command.",
  ["io/gxml/xml.go","cmd/xml2ogdl/main.go"],[("token loop with element stack","io/gxml/xml.go")],[("stack of open elements","","io/gxml/xml.go")],["gxml.FromXML"])
p("C26","The remote function server answers every request, however segmented",
  "For every sequence of well-formed requests on a connection and every way the network may split the bytes, the server calls the handler (or the routed handler whose name is the first node of the request) once per request, in order, with a graph equal to the one sent (of at least one node), and writes back exactly one framed response per request with the handler's result; an unknown route is answered with the not-found object. This holds for both protocol versions and while requests arrive within the configured timeout of each other.",
  ["schedules","histories","inputs"],"all segmentations of request streams; sequences of requests of differing sizes; arrival times",
  "There are no tests for the remote function package.",
  ["ogdlrf/server.go","ogdlrf/function.go"],[("process, process1, router","ogdlrf/server.go")],[("header buffer, deadline","reused for each message","ogdlrf/server.go")],["Serve","Serve1","Server.AddRoute"],"none in /repo: the network import is replaced by a simulated network in a build overlay")
p("C27","A damaged request never reaches a handler or harms other clients",
  "If a connection ends, fails, times out or carries malformed bytes before a request is complete, the handler is not called for that request, the server closes that connection, and it keeps accepting and serving other connections; requests completed earlier on that connection were still answered. No byte sequence from a client makes the server stop.",
  ["fault_sequences","inputs"],"every cut point and read/write failure of request streams, all short malformed messages, both protocols",
  "There are no tests for the remote function package.",
  ["ogdlrf/server.go","binary.go"],[("length check and decode before dispatch","ogdlrf/server.go")],None,["Serve","Serve1"],"simulated network via build overlay")
p("C28","A remote call returns its own complete response or an error",
  "A call returns exactly the response the server sent for that request, however the network splits it, or an error; never a partial, stale or other call's response. A connection found broken is replaced and the call repeated, up to the fixed number of attempts, after which an error is returned; sequences of calls over one client keep working after earlier failures and leave no abandoned connection open.",
  ["fault_sequences","histories","schedules"],"every failing connection operation in each attempt x all segmentations of responses x short sequences of calls, both protocols",
  "There are no tests for the remote function package.",
  ["ogdlrf/client.go"],[("Call retry loop, callV1, callV2","ogdlrf/client.go")],[("connection","cached between calls","ogdlrf/client.go")],["Client.Call","Client.Dial","Client.Close"],"simulated network via build overlay")
p("C29","Concurrent connections are served independently",
  "With several clients connected at once, under every interleaving of their network events each connection receives exactly the responses to its own requests, in order; a slow, stalled or failing connection never blocks or alters another one.",
  ["schedules"],"all interleavings of the network steps of two or three connections with one or two requests each, including stalled ones",
  "There are no tests for the remote function package.",
  ["ogdlrf/server.go"],[("one goroutine with its own buffers per connection","ogdlrf/server.go")],[("per-connection buffers","","ogdlrf/server.go")],["Serve","Serve1"],"simulated network via build overlay")
p("C30","Schema validation accepts exactly the conforming graphs",
  "A graph conforms to a schema if and only if, position by position, each schema node has a counterpart that is equal to it as a string, or, for the schema types !int, !float, !bool, !string and !binary, has content of (or convertible to) that type, recursively for its children; extra nodes beyond the schema are allowed. (Other names starting with ! and numbers as !bool are not covered.) A rejection comes with a message.",
  ["inputs"],"all pairs of small schemas and graphs with content of every type",
  "One example checks a conforming four-line graph; no test has a rejection.",
  ["schema.go","gettypes.go"],[("Check, checkNode","schema.go")],None,["Graph.Check"])
p("C31","Sorting is an ordered permutation",
  "Sorting the children of a graph by a field reorders exactly the same nodes (same identities and contents, none lost or duplicated) so that the field values are non-decreasing, as strings or as integers according to the variant; children lacking the field sort as the empty string or zero.",
  ["inputs"],"all child sequences up to a length over keys that are equal, missing, numeric of different lengths and negative",
  "There are no tests for sorting.",
  ["sort.go"],[("stringSorter, intSorter","sort.go")],None,["Sort","SortAsString","SortAsInt"])
p("C32","The event builder turns any event sequence into the right tree",
  "For every sequence of builder events (add text, bytes or values at the current or at an explicit level, level up, level down, set level, delete last) in which no node is placed more than one level below its predecessor, the resulting tree has exactly the added, not deleted, nodes in order, each a child of the latest earlier node one level above it. Building the tree twice gives equal results, each a tree of nodes of its own.",
  ["histories"],"all event sequences up to a depth",
  "No test drives the event handler directly.",
  ["event.go","parser.go"],[("levels and items lists; Tree","event.go")],[("current, max, levels, items","","event.go")],["SimpleEventHandler","Parser.Emit/Inc/Dec"])
p("C33","Functions called from paths receive the evaluated arguments or fail cleanly",
  "Calling a Go function or method placed in the context, from a path, expression or template, passes each argument evaluated in the context, in order, converted to the parameter type where a conversion is provided (methods), and yields the function's result. For functions any mismatch in the number or types of arguments, and for methods an unknown name or an argument that cannot be converted, yields an error or no value and nothing is called; missing arguments of a method are zero values and further ones are ignored. There is never a panic. (Absent arguments and strings that do not parse as the parameter type are not covered.)",
  ["inputs","programs"],"all signatures over the supported parameter types x all argument lists over constants, paths and missing values",
  "Four tests call functions with exactly matching arguments.",
  ["function.go","eval.go"],[("function, convert","function.go")],None,["Graph.Eval","Process"])
p("C34","The command line tools print what the library computes",
  "For every input delivered through a file or, in any segmentation, through a pipe, gpath prints the text of the addressed part (nothing if it does not exist), json2ogdl and xml2ogdl print the text of the imported well-formed document (or of the addressed part; with -id, xml2ogdl prints it simplified), and gtemplate prints the template rendered with the data of all given files; missing files or malformed input never crash them.",
  ["inputs","schedules"],"all small inputs x paths x pipe segmentations",
  "The commands have no tests.",
  ["cmd/gpath/main.go","cmd/json2ogdl/main.go","cmd/gtemplate/main.go","cmd/xml2ogdl/main.go"],[("main functions","cmd/*/main.go")],None,["process stdout"])
p("C35","The lexer reads and unreads exactly the bytes of its input",
  "For every input, delivered in any way, any sequence of lexer operations behaves like a cursor over the bytes of the input (or its UTF-8 runes, an invalid byte being one replacement rune): each reading operation returns and consumes exactly the text it denotes (byte, rune, space, white space, line break, comment, word, token, integer, number, operator, template text, quoted text, block) or consumes nothing if that is not next, peeking moves nothing, and unreading (at most 2000 bytes back) makes exactly the same bytes come again. Every byte is in one of the classes text, space, break and end. (The position after an end mark, an unterminated quote or a block cut by the end is not covered.)",
  ["inputs","histories"],"all small inputs x all short sequences of operations x all alignments to the buffer",
  "Tests read a few tokens from short strings; positions, unreads and buffer boundaries are not combined.",
  ["lexer.go"],[("Lexer methods","lexer.go")],None,["Lexer method results"])
p("C36","Queries over the children of a node see exactly these, in order",
  "For every node, its children are found by position, by name (the first child whose text is that name), by regular expression (all direct children whose text matches, the same nodes in the same order) and listed as strings, comma separated or space separated text exactly once each and in order, whatever the types of their contents and however many there are; an invalid regular expression gives an error, and descendants that are not children never appear. This holds after any history of edits of the children, of their contents and of their order; the list that a query gives belongs to the caller.",
  ["inputs"],"all lists of children up to a length x all queries",
  "Tests use a couple of lists of plain strings.",
  ["graph.go","gettypes.go"],[("Node, NodeOrNew, GetAt, Len","graph.go"),("Find, Strings, StringCSV, StringTxt","gettypes.go")],None,["method results"])
p("C37","The HTML and the tree view show every node once, in its place",
  "For every graph of plain words (and contents of other types, shown as text), the HTML view has one line per node below the root, in document order, indented by its level; exactly the nodes with children are links, each to the given path followed by the names from the top level down to the node. A node without content is shown as _. The tree view (Show) has one line per node, the top node included, in document order, indented by two spaces per level.",
  ["inputs"],"all trees up to a number of nodes x labellings x paths",
  "There is no test of the HTML view; the tree view appears in a few examples.",
  ["html.go","graph.go"],[("Html, _html","html.go"),("Show, _text","graph.go")],None,["Html(path)","Show()"])
p("C38","Pseudo elements of a path report on the node that is addressed",
  "When a path evaluated directly, in an expression or in a template ends in _len, _this, _thisString, _string or _json, the result is, of the node addressed by what precedes it: the number of its children, the node itself, its own text, the text of its first child, or its JSON. There is no value when what precedes it addresses nothing; children that happen to have such names do not change the result, and no evaluation changes the graph. (The text of the list that a selector gives, and anything after a pseudo element, are not covered.)",
  ["inputs"],"all graphs up to a size x all paths of names and indexes x all pseudo elements x ways to evaluate",
  "Tests use two of them, each on one fixed graph.",
  ["eval.go"],[("evalPath","eval.go")],None,["Graph.Eval","Template.Process"])
p("C39","Simplifying an XML import renames elements by their id and nothing else",
  "In a simplified XML import, an element whose first child is a non-empty attribute id and that has further children carries the id in place of its name (a p element does not) and keeps only its last child; a field element that begins with an attribute name carries that name, with _ for blanks, and loses the attribute. This is applied at every level; every other node keeps its text, its children and its place.",
  ["inputs"],"all trees up to a number of nodes over the names that matter x contents",
  "There is no test of Simplify.",
  ["io/gxml/xml.go","cmd/xml2ogdl/main.go"],[("Simplify","io/gxml/xml.go")],None,["gxml.Simplify","xml2ogdl -id"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
if s:
    for x in P: jsonschema.validate(x,s)
print(len(P),"properties")
