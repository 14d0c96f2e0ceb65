#!/usr/bin/env python3
"""Writes properties.jsonl (kept in one place so that ids, titles and anchors stay in step)."""
import json, os, sys
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

p("C01", "A failed write is never reported as a successful dump",
  "When the destination of a serialization (a Dumper call on a document or on any node, or XML on a document or element) fails a write, accepts fewer bytes than offered, or fails once and recovers, the call returns a non-nil error and still returns, without panicking. The error is the writer's own failure, directly or in its chain or text; an accepted-too-little write without an error counts as a failure too. A serialization during which every write succeeded reports success.",
  ["fault_sequences", "inputs"], "every document or node, every writer, every position and kind of write failure",
  "dump_test.go writes a handful of documents to a bytes.Buffer that never fails; no test has a failing writer, and the failing position has as many values as the output has bytes.",
  ["dump.go", "document.go", "element.go", "node.go"],
  [("sticky error of the dump's writer", "dump.go dumpWriter"), ("entry points returning it", "dump.go Dumper.DumpDoc/DumpNode"), ("convenience wrappers", "document.go Document.XML, element.go Element.XML")],
  observe=["error returned from DumpDoc, DumpNode, Document.XML, Element.XML"])
p("C02", "A writer holds exactly a prefix of the document, complete on success",
  "At every moment the bytes a writer has accepted from one serialization are exactly a prefix of the text that the same document or node serializes to when nothing fails. When the call reports success they are all of it. After a write has failed nothing more is offered to that writer.",
  ["fault_sequences", "inputs"], "every document or node, every failure position, failing writes that accept none or some of the offered bytes, transient failures that would succeed if retried",
  "Tests compare whole outputs on infallible buffers; gaps, repeated bytes or text written after a failure only appear when a write fails in the middle.",
  ["dump.go", "document.go", "element.go"],
  [("all output goes through one writer with a sticky error", "dump.go dumpWriter"), ("recursive emission in document order", "dump.go DumpNode, dumpNodeContent, dumpDTD, dumpEscapedString")],
  observe=["bytes offered to and accepted by the io.Writer"])
p("C03", "Serializing never changes the document",
  "Serializing a document or a node any number of times, into writers that succeed, fail, panic or accept partial writes, in any order and interleaved with other read-only uses, leaves the document as it was. Every later successful serialization of the same node yields the same bytes, and walking the tree yields the same nodes.",
  ["histories", "fault_sequences"], "every document, every sequence of complete, failed and panicking dumps, walks and reads",
  "Tests dump each document once or twice and only successfully.",
  ["dump.go", "node.go", "document.go", "element.go"],
  [("dumping only reads nodes", "dump.go"), ("tree walk", "node.go Walk")],
  observe=["output of repeated dumps", "Walk"])
p("C04", "A handler's error or panic stops the parse and reaches the caller",
  "When any SAX callback other than the entity lookups returns an error (other than 'handler not specified'), no further callback of that parse is made, no document is returned, and the parse returns an error that is, wraps or prints the handler's error, whatever error value it is. When a callback panics, the panic reaches the caller of Parse and no further callback is made.",
  ["fault_sequences", "inputs"], "every document, every callback position at which a handler can fail, every error value",
  "The tests' handlers never fail; which callback of which document fails first has as many values as there are events.",
  ["parserctx.go", "parser.go", "sax/sax2.go", "errors.go", "tree.go"],
  [("each callback result is checked", "parserctx.go, every s.X(ctx.userData, …) call"), ("ErrParseError wraps the cause", "parserctx.go parserCtx.error, errors.go"), ("TreeBuilder keeps the document only on success", "parser.go Parser.Parse")],
  observe=["callbacks made after the failing one", "(document, error) of Parse"])
p("C05", "Handlers see every event of the document exactly once, in order",
  "For a supported well-formed document the handler receives the events of the document (start and end of document and elements, attributes with their values, text, comments, CDATA sections, processing instructions, DTD declarations and entity references) exactly once each, in document order, properly nested, and with the values written there, adjacent text reports being equivalent to their concatenation. Handlers that are not provided are simply not called and change nothing about the others, whichever subset it is and whenever it changes. The outcome does not depend on whether a tree is being built at the same time.",
  ["configurations", "inputs", "histories"], "every supported document, every subset of handlers, with and without a tree builder behind them",
  "sax_test.go compares whole event traces of some twenty fixed files with all handlers set; subsets of handlers, handlers that come and go, and combinations of constructs are never tried.",
  ["parserctx.go", "sax/sax2.go", "sax/interface.go", "tree.go", "interface.go"],
  [("callback dispatch; unset handlers answer ErrHandlerUnspecified", "sax/sax2.go"), ("tolerated by the parser", "parserctx.go, switch err := s.X(…); err { case nil, sax.ErrHandlerUnspecified: }"), ("element stack and nesting", "parserctx.go parseElement, pushNode/popNode")],
  observe=["sequence of SAX2Handler calls with their arguments"])
p("C06", "Data delivered to handlers is stable and belongs to them",
  "Names, values, text and attributes handed to a SAX handler keep their contents after the callback returned, during the rest of the parse and after it, and through later parses and garbage collections, however the parser recycles its internal buffers. What a handler appends to a byte slice it was given stays there, and what it does to that slice changes neither what is delivered later nor the outcome of this or another parse.",
  ["histories", "schedules"], "every document, every retained or overwritten argument, every recycling order of internal buffers, later and concurrent parses",
  "Tests print each event at once and keep nothing; the buffer pool makes a stale alias visible only when a later use happens to get the same buffer.",
  ["parserctx.go", "tree.go", "sax/interface.go"],
  [("buffer pool", "parserctx.go bufferPool, releaseBuffer"), ("bytes are copied out of buffers before delivery", "parserctx.go parseCharDataContent, deliverWhitespace…"), ("attribute data", "parserctx.go attrData, defaultAttr")],
  observe=["retained callback arguments re-read later"])
p("C07", "Damaged input always ends in bounded time without a panic",
  "However a document is damaged in storage or transit (truncated, bytes flipped, dropped, duplicated, spliced or replaced by garbage, also inside a DTD, entities and attribute values), Parse returns within a bound proportional to the work the input describes, without panicking, hanging or overflowing the stack. A parse that builds a tree returns either a document or an error, never both and never neither, and a document that was returned can be serialized.",
  ["fault_sequences", "inputs"], "every document, every position and kind of damage, tree-building and SAX-only parses",
  "The tests parse intact files; a handful of malformed literals are the only damaged inputs.",
  ["parserctx.go", "parser.go", "tree.go", "dump.go", "encoding/encoding.go"],
  [("every scanning loop advances or fails", "parserctx.go"), ("entity nesting limit", "parserctx.go decodeEntitiesInternal, document.go stringToNodeList"), ("document only on success", "parser.go Parser.Parse")],
  observe=["return of Parse", "simulated steps used"])
p("C08", "A truncated document is never accepted",
  "A document cut off before the end of its root element is rejected with an error. The events delivered before the error are a prefix of the events of the whole document, where only the last text or CDATA report may be cut short (also in the middle of a line end); end of document is never reported, and no element, comment, processing instruction, attribute or declaration is reported unless all that is reported of it was there.",
  ["crash_points", "inputs"], "every document, every byte at which it is cut off",
  "No test cuts a document; there are as many cut positions as bytes.",
  ["parserctx.go", "parser.go"],
  [("each construct's terminator is required before delivery", "parserctx.go parseComment, parseCDSect, parsePI, parseStartTag, parseElement"), ("end of document only after the root was closed", "parserctx.go parseDocument")],
  observe=["events delivered", "(document, error) of Parse"])
p("C09", "Concurrent parses and dumps do not affect each other",
  "Parses running at the same time, with one shared Parser or with several, deliver the same events, documents and errors as each would alone, in every interleaving and while others fail or panic. Any number of goroutines can serialize or walk the same finished document at the same time and get the same bytes, while others parse. None of this is a data race.",
  ["schedules", "histories"], "every interleaving of parses and dumps, with failing and panicking ones among them, every recycling order of shared buffers",
  "All tests are sequential; the shared state (buffer pool, package variables, the Parser's handler) is only exercised one use at a time.",
  ["parserctx.go", "parser.go", "dump.go", "document.go", "tree.go", "node.go"],
  [("a fresh context per parse", "parser.go Parser.Parse, parserctx.go parserCtx.init"), ("sync.Pool of buffers", "parserctx.go bufferPool"), ("read-only package state", "parserctx.go, document.go, tree.go package variables")],
  state=[("bufferPool", "buffers shared by all parses", "parserctx.go:152")],
  observe=["events, documents and errors per task", "race detector"])
p("C10", "A Parser carries nothing over from one parse to the next",
  "The outcome of a parse (events, document, error) depends on its input and the handlers, not on what was parsed before: a Parser that has parsed, failed, been stopped by a handler or unwound by a panic any number of times behaves like a new one, and so does every other Parser and the free Parse function afterwards.",
  ["histories", "fault_sequences"], "every sequence of successful, malformed, aborted and panicked parses on the same and other Parsers, then any document",
  "Each test uses a new Parser or a few successful parses.",
  ["parser.go", "parserctx.go", "tree.go"],
  [("context per parse, released by defer", "parser.go Parser.Parse"), ("buffers reset when taken or returned", "parserctx.go releaseBuffer"), ("TreeBuilder keeps its document in the context", "tree.go")],
  observe=["outcome of the last parse compared with a fresh process state"])
p("C11", "A document owns its data",
  "A document returned by Parse does not change when the caller overwrites or reuses the input slice, when other documents are parsed, modified, or serialized, or when internal buffers are recycled. Byte slices given to the document-building functions may be reused by the caller afterwards, and changing or extending one document or node never changes another one that was built or parsed separately.",
  ["histories", "schedules"], "every document, every later overwrite of input and of buffers given to constructors, every later use of other documents",
  "Tests inspect a document immediately after building it, from string constants.",
  ["parser.go", "parserctx.go", "tree.go", "document.go", "text.go", "comment.go", "element.go", "node.go"],
  [("cursor copies input into strings and buffers", "parserctx.go"), ("content slices copied into nodes", "text.go, comment.go, document.go CreateText/CreateComment/CreatePI")],
  observe=["serialization before and after the interference"])
p("C12", "The outcome is a function of the input alone",
  "Parsing the same bytes with the same handlers gives the same events in the same order, the same document and the same error text, and serializing the same document gives the same bytes, every time: whatever the map iteration order, the state of buffer pools, garbage collections and memory reuse, the clock and the speed of the machine, and in which process it happens.",
  ["configurations", "histories"], "every document with several attributes, declarations and entities, every map iteration order and recycling order",
  "A test run sees one iteration order per map; goldens exist for a few attributes only.",
  ["parserctx.go", "document.go", "dtd.go", "dump.go", "tree.go"],
  [("ordered slices where order is visible", "parserctx.go attsDefault, dtd.go, dump.go"), ("maps only for lookup", "document.go, dtd.go, parserctx.go")],
  observe=["events, error text, serialized bytes"])
p("C13", "helium-lint ends with a truthful status and diagnostic",
  "helium-lint always ends: with status 0 exactly if every input named (or standard input) was opened, read completely and parsed and its output completely written, and otherwise with a non-zero status and a diagnostic on standard error that tells the cause. This holds whichever file, read or write fails, at whatever point and in whatever interleaving of its opener and its main loop.",
  ["schedules", "fault_sequences", "inputs"], "every list of files, every open, read and write failure, every interleaving",
  "There is no test of the command at all.",
  ["cmd/helium-lint/helium-lint.go", "internal/cliutil/tty_posix.go", "dump.go", "parser.go"],
  [("opener goroutine and channel", "helium-lint.go _main inputCh"), ("open error handed over", "helium-lint.go errCh"), ("exit status", "helium-lint.go main, _main")],
  observe=["exit status", "standard error", "deadlock detection of the simulator"])
p("C14", "helium-lint prints the documents in order, and only complete inputs",
  "The standard output of helium-lint is the concatenation, in command line order, of the serializations of the inputs, each exactly once, up to the first failure: after a failure it is a prefix of that which includes every input before the failing one that could be written. Nothing of an input that could not be read completely or parsed, or of one after a failure, is printed.",
  ["schedules", "fault_sequences", "inputs"], "every list of files, every chunking of reads, every failure and interleaving",
  "There is no test of the command at all.",
  ["cmd/helium-lint/helium-lint.go", "dump.go"],
  [("one file at a time through an unbuffered channel", "helium-lint.go inputCh"), ("parse before dump", "helium-lint.go main loop")],
  observe=["standard output"])
p("C15", "Parsing and dumping from inside a callback is harmless",
  "A SAX callback may itself parse other documents (with a new or the same Parser), serialize finished documents, or fail inside such a nested use, and an output writer may do the same from inside Write. Neither the outer nor the nested operation is affected: both have the outcome they have alone.",
  ["histories", "schedules"], "every outer document and callback or write position, every nested operation, nesting depth above one",
  "No test nests operations.",
  ["parser.go", "parserctx.go", "tree.go", "dump.go"],
  [("per-parse context", "parser.go Parser.Parse"), ("context passed to handlers", "tree.go"), ("buffers held across callbacks", "parserctx.go bufferPool")],
  observe=["events, documents and bytes of outer and nested operations"])
p("C16", "Walk visits every node below its start once, in order, and stops at the first error",
  "Walk calls its function for the node it is given and then for everything below it, as FirstChild and NextSibling show the tree: each node once, parents before their children, siblings in order. When the function returns an error it is not called again and Walk returns that very error; a panic of the function reaches Walk's caller; otherwise Walk returns nil. Walking nothing (a nil node) is an error. Walking leaves the tree as it was. All this also holds when the function itself walks, serializes or parses, after earlier walks that failed or panicked, and for any number of walks of one tree at the same time.",
  ["histories", "schedules", "fault_sequences"], "every tree, every start node, every call at which the function fails or panics, every nesting and interleaving of walks",
  "No test walks a tree; a function that fails has as many places to do so as the tree has nodes, and nesting and concurrency need schedules.",
  ["node.go", "document.go", "element.go", "entity.go"],
  [("recursive walk", "node.go Walk"), ("links", "node.go docnode.FirstChild, NextSibling")],
  observe=["calls of the WalkFunc", "error of Walk", "tree before and after"])
p("C17", "When a call returns it is over",
  "The library calls the caller's code (SAX callbacks of one parse, Write of one serialization, the function of one walk) one call at a time, never two at once. When Parse, a serialization or a walk returns, normally, with an error or by a panic of the caller's code, it is over: no callback, Write or call of the walk function happens on its behalf afterwards, the returned document does not change any more even if the input slice is overwritten at once, and no goroutine that it started stays behind, so that repeating the call does not pile up goroutines.",
  ["schedules", "fault_sequences", "histories"], "every parse, serialization and walk, every way and place in which the caller's code or the input makes it end early, every schedule",
  "The library has no goroutines today and the tests would not notice one that stays; calls that end early are hardly tested, and a late call needs a schedule in which it is late.",
  ["parser.go", "parserctx.go", "document.go", "element.go", "dump.go", "node.go"],
  [("synchronous parse", "parser.go Parser.Parse"), ("synchronous serialization", "dump.go Dumper.DumpDoc/DumpNode, document.go Document.XML, element.go Element.XML"), ("synchronous walk", "node.go Walk")],
  observe=["calls of handlers, writers and walk functions and when they are made", "goroutines left in the simulator"])

NA = []
def na(id, title, statement, over, qtext, why, files, mech, reason):
    p(id, title, statement, over, qtext, why, files, mech)
    NA.append(dict(property=id, reason=reason))

na("N01", "Documents that are not well-formed are rejected",
  "Every document that violates a well-formedness constraint of XML 1.0 (mismatched tags, duplicate attributes, illegal characters, undeclared prefixes and so on) is rejected with an error, and no well-formed document within the supported subset is rejected.",
  ["inputs"], "every byte string", "Tests hold a few malformed literals.",
  ["parserctx.go"], [("grammar productions", "parserctx.go")],
  "a pure function of the input: no schedule, clock, I/O fault or other party is involved, so simulation would be input generation under another name (crash-like damage to inputs is C07 and C08)")
na("N02", "Parse followed by dump preserves the document",
  "The tree of a parsed document has the elements, attributes, text, comments, instructions and DTD of its source, and serializing it yields a document that parses to the same tree.",
  ["inputs"], "every document", "A few goldens under test/.",
  ["tree.go", "dump.go", "document.go"], [("tree construction", "tree.go"), ("serialization", "dump.go")],
  "a pure function of the input; nothing in it depends on schedules or faults (the interaction with failing writers is C01 and C02)")
na("N03", "Namespace declarations scope as XML Namespaces demands",
  "Every element and attribute is reported with the namespace URI its prefix is bound to at that point, and bindings end with their element.",
  ["inputs"], "every nesting of declarations", "Two goldens use namespaces.",
  ["parserctx.go", "internal/stack/nsstack/nsstack.go", "namespace.go"], [("namespace stack", "parserctx.go, internal/stack/nsstack")],
  "a pure function of the input")
na("N04", "Declared encodings are decoded correctly",
  "A document in any supported encoding yields the same events as its UTF-8 transcription.",
  ["inputs"], "every encoding and document", "One test loads encodings by name.",
  ["encoding/encoding.go", "parserctx.go"], [("encoding table", "encoding/encoding.go Load")],
  "a pure function of the input; decoding happens from memory, without partial reads")
na("N05", "Entity expansion and attribute normalization follow XML 1.0",
  "Replacement text, character references, attribute-value normalization and default attributes have the values XML 1.0 defines for every combination of declarations.",
  ["inputs"], "every set of declarations and references", "A few goldens.",
  ["parserctx.go", "document.go", "entity.go"], [("entity decoding", "parserctx.go decodeEntitiesInternal"), ("attribute defaults", "parserctx.go addAttributeDefault")],
  "a pure function of the input (that expansion ends and does not crash is decided under C07, that it is deterministic under C12)")
na("N06", "Entity expansion is bounded in size",
  "The memory and time used for a document are bounded by a constant factor of its size, even for documents made of nested entities.",
  ["inputs"], "every set of entity declarations", "No test has nested entities beyond two levels.",
  ["parserctx.go", "document.go"], [("depth limit 40", "parserctx.go decodeEntitiesInternal")],
  "a pure function of the input; it does not hold either (depth is limited, amplification is not: see DESIGN.md), and no simulated fault or schedule bears on it")
na("N07", "Tree mutators keep the links of the tree consistent",
  "After any sequence of adding, replacing and removing nodes, parent, child and sibling links agree with each other and each node is in one place.",
  ["programs"], "every sequence of calls of the tree-building functions", "Tests build a few small trees.",
  ["node.go", "element.go", "document.go"], [("addChild, addSibling, replaceNode", "node.go")],
  "a sequential data structure with no concurrency, time or I/O: a pure function of the call sequence")
na("N08", "Error positions point at the offending input",
  "The line, column and excerpt of a parse error are those of the place where parsing failed.",
  ["inputs"], "every malformed document", "One test looks at an error's line.",
  ["parserctx.go", "errors.go"], [("position taken from the cursor", "parserctx.go parserCtx.error")],
  "a pure function of the input")

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
    json.dump(NA, open(os.path.join(here, "tool", "na.json"), "w"), indent=1)
