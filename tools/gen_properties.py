import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["observe_at"]=obs or ["helium.Parse / Parser.Parse result and error"]
    d["anchors"]["hook_needed"]=None
    P.append(d)
pc="parserctx.go"
p("P01","Parsing any byte sequence terminates and never crashes",
 "For every byte sequence handed to the parser, parsing returns either a document or an error after a bounded amount of work. It never panics, never loops forever, never recurses without bound, and never returns neither a document nor an error.",
 ["inputs"],"every byte string, well-formed or not, including truncated declarations, DTDs, references and declarations cut off at any point",
 "the parser tests feed a few dozen fixed files; a hang or index panic needs one particular malformed byte at one particular parser state",
 [pc,"parser.go","tree.go","dtd.go"],[("hand-written recursive descent with explicit progress in every loop",pc),("entity recursion guards",pc+": decodeEntitiesInternal, parseReference")],
 [("input cursor","position in the input; every loop must advance it or stop",pc)])
p("P02","Documents that are not well-formed are rejected with an error",
 "A byte sequence violating an XML 1.0 well-formedness rule - mismatched, unclosed or extra element tags, repeated attributes, missing quotes, equals signs or separating blanks, a raw '<' or unescaped '&' where not allowed, ']]>' in text, '--' in comments, characters outside the XML range, unterminated constructs, text or a second element outside the root, and (Namespaces in XML) a colon in the name of an entity or in the target of a processing instruction - makes parsing fail with an error. No document is returned for it.",
 ["inputs"],"every byte string that the XML 1.0 grammar (no external entities) does not accept",
 "the only negative tests are a handful of fixed strings; each grammar rule has its own guard and a missing guard is only visible on the one input class it guards against",
 [pc],[("end-tag matching",pc+": parseEndTag"),("duplicate attribute check",pc+": parseStartTag"),("character range check",pc+": isChar"),("misplaced ]]> check",pc+": parseCharData"),("double hyphen check",pc+": parseComment"),("extra content check",pc+": parseDocument/parseEpilogue")])
p("P03","Well-formed documents are accepted and give exactly their element tree",
 "A well-formed document in a supported encoding, without external references or notation declarations, is accepted whatever legal spelling it uses (nesting, names and declarations within documented limits; U+FFFD only as a reference): either quote style, optional blanks anywhere the grammar allows them, empty-element or start/end tag pairs, any name characters. The resulting tree has exactly the document's elements, attributes and text, with the same names, nesting and order, and nothing added, dropped, merged across markup or reordered.",
 ["inputs"],"every well-formed document: all choices of names, nesting, attribute lists, blanks, quote styles and text",
 "golden files fix one spelling each; dropping or misplacing a node for one combination of neighbours, length or buffer alignment is invisible to them",
 [pc,"tree.go","element.go","node.go"],[("content loop",pc+": parseContent/parseElement"),("SAX to tree construction","tree.go"),("text coalescing","text.go: AddContent")],
 [("element stack","currently open elements",pc+": nodeTab")],["tree under the returned document (FirstChild/NextSibling/Attributes/Content)"])
p("P04","Attribute values are delivered complete and normalised",
 "For every attribute of a parsed start tag the value in the tree equals the quoted text with each literal tab, newline or carriage return (CRLF counting once) turned into one blank and character and predefined entity references replaced by their character, references to blank characters staying as they are. Attributes come out in document order, each with exactly its own value.",
 ["inputs"],"every attribute list and every attribute value text, both quote styles",
 "tests use a few literal values; the normalisation and reference branches interact per character and with buffer boundaries",
 [pc,"attr.go","element.go"],[("value scanner",pc+": parseAttributeValueInternal"),("attribute storage","element.go: SetAttribute"),("value reader","attr.go: Value")],None,["Element.Attributes, Attribute.Name/Value"])
p("P05","Numeric character references mean exactly the character they name",
 "A decimal or hexadecimal character reference in text, an attribute value or an entity value contributes exactly the one character with that code point, for all legal code points and any number of leading zeros. References to code points that are not XML characters, that overflow any integer width, or that lack digits or the closing semicolon are rejected.",
 ["inputs"],"every digit string in both radixes, at every place a reference may occur",
 "tests contain a few two-digit references; boundaries of the character range and integer overflow are single points in a huge space",
 [pc,"document.go"],[("reference scanner",pc+": parseCharRef"),("string reference scanner",pc+": parseStringCharRef"),("character class",pc+": isChar")])
p("P06","Internal entity references expand to their declared replacement text",
 "A reference to a declared internal entity contributes exactly the declared replacement (first declaration wins, nested references expanded, markup in it parsed), in content and in attribute values, without disturbing what surrounds it; the five predefined entities always mean their character. A reference to an undeclared entity, or a directly or indirectly self-referencing entity, gives an error and never crashes, hangs or explodes.",
 ["inputs"],"every set of internal entity declarations (within the bound) and every placement of references",
 "the golden files hold a couple of fixed entities; recursion, chains, empty replacements and neighbours of a reference are combinations no test enumerates",
 [pc,"entity.go","document.go","dtd.go"],[("content references",pc+": parseReference"),("value expansion",pc+": decodeEntitiesInternal"),("attribute node list","document.go: stringToNodeList"),("entity tables","dtd.go")],
 [("entity table","declared entities by name","dtd.go: DTD.entities")])
p("P07","CDATA sections deliver their characters literally",
 "A CDATA section delivers exactly the characters between its delimiters as character content, with no markup or reference recognised in it, and is closed only by the first ']]>'. Parsing, serialising and reparsing keeps those characters, and an unterminated section is an error.",
 ["inputs"],"every section content, including brackets, ampersands, '<' and multi-byte characters at any position",
 "one fixed CDATA file; terminator recognition and buffering depend on the exact bytes around brackets",
 [pc,"tree.go","dump.go"],[("section scanner",pc+": parseCDSect/parseCharData"),("tree callback","tree.go: CDataBlock")])
p("P08","Comments and processing instructions are preserved verbatim in place",
 "Every comment and processing instruction before, inside and after the root element appears once in the tree at its document position, with exactly its text, target and data. They serialise back to the same construct, so that reparsing yields the same comments and instructions.",
 ["inputs"],"every legal comment text, PI target and PI data at every place they may occur",
 "golden files have few comments and no PI dump; the scanner keeps several characters of look-ahead and flushes chunks at buffer limits",
 [pc,"tree.go","comment.go","pi.go","dump.go"],[("comment scanner",pc+": parseComment"),("PI scanner",pc+": parsePI"),("tree callbacks","tree.go: Comment, ProcessingInstruction"),("serialiser","dump.go: DumpNode")])
p("P09","Namespace prefixes resolve by lexical scope",
 "Every element's namespace is the one bound to its prefix by the nearest enclosing declaration (or the default namespace for unprefixed elements), inner declarations shadow outer ones and end with their element, and the tree lists each declaration on the element that made it, separately from ordinary attributes. A prefix used on an element with no binding in scope is an error, and so is a declaration that Namespaces in XML forbids (of xmlns, of xml for another name, of their names for other prefixes or as default, of a prefix for nothing).",
 ["inputs"],"every nesting and sequence of elements with any combination of prefix and default declarations",
 "tests cover one declaration on a root; shadowing, siblings after a scope ends, and repeated declarations need multi-element histories",
 [pc,"stack.go","internal/stack/unique.go","tree.go"],[("binding stack","stack.go, internal/stack/unique.go"),("start tag processing",pc+": parseStartTag"),("scope exit",pc+": popNode")],
 [("namespace stack","bindings in scope","parserctx.go: nsTab")],["Element.URI/Prefix/Namespaces"])
p("P10","Serialising a parsed document and reparsing it gives the same document",
 "For every document the parser accepts, serialisation succeeds and its output is again accepted and yields an equal tree: same declaration, document type, elements, namespaces, attributes, text, comments and instructions. Serialising that second tree gives byte-identical output.",
 ["inputs"],"every accepted document",
 "golden files check byte equality on a few files; escaping and structure must survive for all content, including characters special in only one context",
 ["dump.go","document.go",pc,"tree.go"],[("serialiser","dump.go"),("escaping","dump.go: escapeText/escapeAttrValue"),("parser",pc)],None,["Document.XMLString, Dumper"])
p("P11","Documents built through the API serialise to XML meaning the same thing",
 "A document assembled from created elements, attributes, text, comments, instructions and references with legal names and characters serialises, and parsing that output yields the same names, attribute values (given in reference syntax: an ampersand starts a reference) and text that were put in, whatever special characters they contain. Serialisation never panics and never writes unescaped markup from data: what cannot be written is an error, and so is a failing writer.",
 ["inputs","histories"],"all strings of XML characters as text or attribute values and all small construction sequences",
 "the element tests build one fixed tree; escaping is per character and per context",
 ["dump.go","document.go","element.go","text.go","attr.go"],[("text escaping","dump.go: escapeText"),("attribute escaping","dump.go: escapeAttrValue/dumpAttribute"),("construction","document.go, element.go")],None,["Document.XMLString, Element.XMLString"])
p("P12","Tree links stay mutually consistent under parsing and editing",
 "After parsing and after any sequence of successful child insertions, sibling insertions, replacements and content additions on detached nodes, parent, first/last child and next/previous sibling links agree with each other: each child list read forwards is the reverse of it read backwards, ends match first/last child, every child names its parent, and there are no cycles. Nodes obtained from a parsed document report that document as owner, and giving a tree a document (SetTreeDoc) gives it to every node in it.",
 ["histories","inputs"],"every bounded sequence of tree operations on nodes of every kind and every parsed document",
 "tests do a few AddChild calls and check one direction; an unset back link shows only under a later operation",
 ["node.go","element.go","text.go","comment.go","attr.go","tree.go","document.go"],[("link maintenance","node.go: addChild, addSibling, replaceNode")],
 [("parent/firstChild/lastChild/next/prev","tree links","interface.go: docnode")],["Node accessors"])
p("P13","Tree edits place content exactly where asked and own their data",
 "Adding a child appends it as the last child, adding a sibling appends after the last sibling, replacing puts the new node at the old node's position, adding text next to text merges the two in order, and setting an attribute appends it or fails on a duplicate. Content equals the concatenation of descendant text, and later changes to byte slices passed in or returned never alter other nodes.",
 ["histories","inputs"],"every bounded sequence of edit operations, positions and byte contents",
 "tests cover adding one text or two children; positions, merging and aliasing only differ on particular sequences",
 ["node.go","element.go","text.go","comment.go","attr.go"],[("insertion","node.go: addChild/addSibling"),("text merge","text.go"),("attributes","element.go: SetAttribute")],None,["Node accessors, Content"])
p("P14","Walking visits every node once in document order and stops on error",
 "Walking a node calls the callback for that node and then for every descendant, each exactly once, parents before children and siblings in order. The first error returned by the callback ends the walk immediately and is returned unchanged; a nil node is an error.",
 ["inputs","histories","fault_sequences"],"every tree shape within the bound and every callback failure point",
 "no test walks a tree with a failing callback",
 ["node.go"],[("recursive walk","node.go: Walk")],None,["helium.Walk"])
p("P15","SAX events mirror the document in order and properly nested",
 "A custom SAX handler receives exactly one start-of-document first and one end-of-document last, start and end element events properly nested with matching names, each attribute exactly once on its element, and character, comment, PI and CDATA events whose text concatenates to the document's, all in document order (a reference to an entity is one reference event, its replacement's events coming once when it is first used; blanks directly in an element that is not declared to hold text may come as ignorable whitespace). The event stream describes the same document as the tree the default handler builds.",
 ["inputs"],"every accepted document and any handler object",
 "the SAX golden test is failing in the baseline and covers fixed files",
 [pc,"sax/sax2.go","sax/interface.go","tree.go"],[("event dispatch",pc+": fireSAXCallback and direct calls"),("tree builder as one handler","tree.go")],None,["SetSAXHandler callbacks"])
p("P16","A SAX handler error stops parsing and is reported to the caller",
 "When a SAX callback that reports content or declarations returns an error other than the 'unspecified' marker, parsing stops without delivering any further content events and the error is reported from the parse call with its cause preserved. A callback left unspecified is skipped without affecting the remaining events.",
 ["inputs","fault_sequences"],"every callback kind and every position of the failing call in the event stream",
 "no test makes a handler fail; each call site has its own error branch",
 [pc,"sax/sax2.go"],[("per-call-site error switch",pc)],None,["SetSAXHandler callbacks, Parse error"])
p("P17","The function-table SAX handler forwards each event to its own function",
 "Each of the SAX2 handler's callbacks invokes exactly the function registered for it, once, with the same arguments in the same order, and returns its results unchanged. With no function registered it returns the 'unspecified' marker and calls nothing.",
 ["inputs","configurations"],"every subset of registered functions and all argument values",
 "the sax test only checks interface satisfaction at compile time",
 ["sax/sax2.go"],[("dispatch methods","sax/sax2.go")],None,["sax.SAX2 methods"])
p("P18","Parse errors report the line where parsing stopped",
 "When parsing a document body fails, the error carries the 1-based number of the line containing the point of failure, that is one plus the number of line feeds consumed before it, whatever constructs, line lengths or buffer boundaries precede it. Its message contains that line number and the underlying error.",
 ["inputs"],"every malformed document: any number and placement of line feeds before the error",
 "no test checks error positions",
 [pc,"errors.go"],[("error wrapping",pc+": error"),("line counting","strcursor (dependency) driven by Advance/Consume calls")],None,["ErrParseError.LineNumber, Error()"])
p("P19","The XML declaration is parsed strictly and preserved",
 "A document's version, encoding and standalone settings are exactly those in its XML declaration, with the documented defaults when absent, in either quote style and with any legal blanks, and are written back on serialisation. A declaration with missing version, wrong order, illegal values, unknown pseudo-attributes or missing delimiters is rejected.",
 ["inputs"],"every byte sequence in declaration position and every legal value",
 "tests cover four fixed declarations",
 [pc,"dump.go","document.go"],[("declaration scanner",pc+": parseXMLDecl, parseNamedAttributeBytes, parseQuotedTextBytes"),("writer","dump.go: DumpDoc")],None,["Document.Version/Encoding/Standalone"])
p("P20","Input encoding is detected and never silently misread",
 "The byte order mark and declared encoding select the decoder: an encoding name is matched case-insensitively to exactly that character set, bytes decode to the characters that encoding assigns, and a byte order mark contributes no content. Unknown or unsupported encoding names give an error rather than being read as something else.",
 ["inputs","configurations"],"every name string, every supported single-byte value and every byte order mark",
 "tests check BOM detection and one ISO-8859-1 file",
 [pc,"encoding/encoding.go"],[("detection",pc+": detectEncoding"),("name table","encoding/encoding.go: Load"),("decoder switch",pc+": switchEncoding")],None,["encoding.Load, Parse"])
p("P21","Parser stacks are last-in first-out and keep keyed lookups innermost",
 "Pushing then popping any sequence of items leaves the remaining items in insertion order, popping more than present empties the stack, and peeking returns the top items without changing the stack. The keyed stack refuses a second item under a key already present, finds a pushed key until it is popped, and reports absence otherwise.",
 ["histories"],"every bounded sequence of push, pop(n), peek(n) and lookup, across the capacity shrink threshold",
 "tests do a few namespace pushes; the reallocation on shrink needs more than twenty items",
 ["internal/stack/simple.go","internal/stack/unique.go","internal/stack/stack.go","internal/stack/nsstack/nsstack.go","stack.go"],[("pop with shrink","internal/stack/stack.go: stackPop"),("keyed lookup","internal/stack/unique.go")],[("slice","stack storage","internal/stack")],["stack methods"])
p("P22","Parses are independent of each other and of the caller's buffer",
 "The result of parsing an input depends only on that input: reusing one parser for any sequence of inputs, including ones that failed, gives the same documents and errors as fresh parsers. Parsing never modifies the input bytes, and changing them afterwards never changes a returned document.",
 ["histories","inputs"],"every pair of inputs parsed in sequence on one parser, and every later mutation of the input buffer",
 "tests parse each file once with a fresh or idle parser",
 ["parser.go","parser_interface.go",pc,"tree.go"],[("per-parse context","parser.go: Parse, "+pc+": init/release")],[("parser context","all per-parse state",pc)])
p("P23","DTD declarations are recorded and written back faithfully",
 "Element content models (names, nesting, sequence or choice, occurrence), attribute types and default kinds, and internal or external entity declarations in the internal subset are recorded exactly as declared (content models up to redundant grouping), can be looked up by name, and serialise to declarations that reparse to the same ones. Malformed or misplaced declarations are rejected.",
 ["inputs"],"every content model, attribute list and entity declaration within the bound",
 "golden files contain a few declarations; nesting and occurrence marks combine freely",
 [pc,"dtd.go","dump.go","document.go","valid.go"],[("declaration scanners",pc+": parseElementDecl, parseAttributeListDecl, parseEntityDecl"),("tables","dtd.go"),("writer","dump.go")],[("DTD tables","elements, attributes, entities","interface.go: DTD")],["Document.IntSubset, XMLString"])
p("P24","Attribute defaults and types declared in the DTD take effect",
 "An element missing an attribute that its attribute-list declaration gives a default or fixed value gets exactly that value in its start event, an explicitly specified one is kept, and attributes declared only implied or required are not invented. Values of attributes declared with a tokenised type have leading, trailing and repeated blanks removed, those of character-data type do not.",
 ["inputs"],"every attribute declaration list, default kind and combination of specified attributes and values",
 "one or two golden files with a default; explicit plus default, several defaults and tokenised values are combinations",
 [pc],[("default table",pc+": addAttributeDefault, parseStartTag"),("special attribute types",pc+": addSpecialAttribute, attrNormalizeSpace")],[("attsDefault, attsSpecial","declared defaults and types",pc)],["StartElementNS attributes of a SAX handler"])
p("P25","Document-level lookups return what was registered",
 "Entities added to a document's subsets are found by exactly their name and kind with the declared type, identifiers and content, the first declaration of a name stays in force, and general and parameter entities never mix. Setting the document element to a detached element keeps a single root element, and version, encoding, standalone and subset accessors return what was set.",
 ["histories","inputs"],"every bounded sequence of registrations and lookups over arbitrary names",
 "no test registers entities through the API",
 ["document.go","dtd.go","entity.go"],[("registration","document.go: AddEntity, dtd.go: AddEntity"),("lookup","document.go: GetEntity/GetParameterEntity")],[("entities, pentities","entity tables","interface.go: DTD")],["Document.GetEntity and accessors"])
p("P26","Parser and subset options are independent switches",
 "Setting an option turns on exactly that option: it then tests as set, and every other option tests as before. Every option is a distinct switch and setting is idempotent.",
 ["configurations"],"every starting option value and every pair of options",
 "no test touches the option sets",
 ["bitset.go","interface.go"],[("bit constants","interface.go"),("Set/IsSet","bitset.go, parser_interface.go")],None,["ParseOption/LoadSubsetOption Set and IsSet"])
p("P27","Line endings in content are normalised and other blanks kept",
 "In text, comments, PI data and CDATA every CRLF pair and every lone carriage return of the input is delivered as one line feed, while all other characters including every tab, blank and line feed are delivered unchanged and in number. A carriage return written as a character reference survives parsing and a serialise-reparse cycle.",
 ["inputs"],"every mixture of line ending characters, at any distance from markup and buffer boundaries",
 "golden files are LF only",
 [pc,"dump.go"],[("content scanner",pc+": parseCharData"),("escaping","dump.go: escapeText")],None,["Content of tree nodes"])
p("P28","The lint command always terminates with the right outcome",
 "Given any list of file names or standard input, the command terminates under every scheduling of its reader, prints the serialisation of each document in argument order up to the first input that fails, and exits non-zero with a message when a file cannot be opened or read, or does not parse. It exits zero only if all inputs were processed.",
 ["schedules","inputs","fault_sequences"],"every argument list, every open/read/parse outcome and every interleaving of producer and consumer",
 "the command has no tests",
 ["cmd/helium-lint/helium-lint.go"],[("producer goroutine and channels","cmd/helium-lint/helium-lint.go: _main")],[("inputCh, errCh","hand-over of readers and errors","cmd/helium-lint/helium-lint.go")],["process exit code, stdout, stderr"])
p("P29","Work on different documents in different goroutines does not interfere",
 "Any number of goroutines may at the same time parse (each with its own parser or all with one shared parser), build, edit, look things up in and serialise different documents, and load encodings. Such work shares no memory that is written without synchronisation, not even through package variables, predefined entities or pooled buffers, so each goroutine gets what it would get alone.",
 ["schedules","inputs"],"every interleaving of calls in different goroutines and every input to each; which code touches shared memory depends on the input",
 "all tests are sequential and none runs several parsers at once",
 ["parser.go","parser_interface.go",pc,"encoding/encoding.go","entity.go","document.go","dump.go"],[("pooled buffers",pc+": bufferPool, releaseBuffer"),("predefined entities","entity.go: EntityLT ..., resolvePredefinedEntity"),("parser shared by parses","parser.go: Parse, "+pc+": init/release")],[("bufferPool","byte buffers reused by all parses",pc),("predefined entities","one object each, linked from every document","entity.go"),("Parser","SAX handler, character sets and options","parser_interface.go")],["helium.Parse, Parser.Parse, Document methods from several goroutines"])
p("P30","Reading a document does not change it",
 "Serialising a document or a node, walking it, following its links, and looking up or asking its nodes, attributes, namespaces, entities and declarations for anything leaves the document exactly as it was. None of these writes memory of the document without synchronisation, so any number of goroutines may read one document at the same time.",
 ["histories","schedules","inputs"],"every document, every sequence of reading calls and every interleaving of them",
 "tests serialise each document once and never look at it afterwards",
 ["dump.go","node.go","document.go","dtd.go","attr.go","element.go","entity.go"],[("serialisation","dump.go: DumpDoc, DumpNode"),("walking","node.go: Walk"),("lookups","document.go: GetEntity, IsMixedElement, dtd.go: Lookup...")],[("document tree","links, contents, tables of the DTD","node.go, interface.go")],["XMLString, XML, Dumper, Walk, accessors and lookups of all nodes"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s); assert x["statement"].count(". ")<=2,x["id"]
print(len(P))
