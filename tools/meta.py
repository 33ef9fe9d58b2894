#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: a property is claimed when props/<id>.py exists."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, level="proof", note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, na=na))


PARSER = ["src/parser/mod.rs", "src/parser/base/mod.rs", "src/parser/base/grammar.rs", "src/parser/base/directive.rs"]
ABS = ("Assumes rustc's MIR, documented panic conditions of std, inputs below 2^40 bytes, no allocation failure and no stack exhaustion; "
       "std functions outside the model list are reported as violations, never skipped.")
FLOW = ("Assumes rustc's MIR and the documented meaning of the std functions in the term language; a value the dataflow cannot follow is a violation, "
        "not a pass.")

prop("C01", "Parsing never panics",
     "Parsing any text, in plain or cyclic mode or through the serde text entry points' parsing step, returns a result or an error and never panics: "
     "no index, slice, arithmetic, unwrap or explicit panic on the way can fail.",
     ["inputs"], "every string below 2^40 bytes", "tests parse a few dozen fixed documents; a panic needs a particular byte in a particular parser state",
     PARSER + ["src/indicator.rs"],
     [("every position stays inside the document and on a byte that was checked", "Parser::take_while, back, food, text"),
      ("one anchor table per started document", "Loader::doc, scalar_node"), ("indent levels exist before they are read", "Parser::ind, ind_define")],
     "abstract interpretation (zone + affine domain) of the MIR of everything reachable from parsing; one proof obligation per possible panic",
     note="Sound for panics at MIR level. " + ABS)
prop("C02", "Parsing terminates",
     "Parsing any text finishes: every repetition on the way consumes input, exhausts a finite collection or counts up to a bound, so no text makes the parser run forever.",
     ["inputs"], "every string below 2^40 bytes", "a test that hangs needs the particular text which makes one repetition stop consuming",
     PARSER, [("each repetition consumes or leaves", "all loops of src/parser")],
     "ranking-function inference on abstract-interpretation invariants, one obligation per loop", note="Sound for termination of loops; recursion is C03. " + ABS)
prop("C03", "Nesting of parsing is bounded",
     "However deep a text nests, the parser's own recursion is bounded by a fixed depth and deeper texts are an error; leaving a nested value, also with an error, gives back the depth it took.",
     ["inputs"], "every string", "tests nest three levels; overflow needs thousands, and a leak needs many siblings",
     ["src/parser/mod.rs"], [("depth counter checked before descending and restored after", "Loader::scalar_node, MAX_DEPTH")],
     "recursion-cycle analysis of the call graph with a depth counter proved strict on every cycle and restored on every exit",
     note="Bounds the number of parser frames; the size of a frame against the thread's stack is not measured. " + ABS)
prop("C04", "Dumping never panics",
     "Dumping any nodes with any anchor tables returns a text and never panics, whatever their values, tags and strings.",
     ["inputs"], "every node tree and anchor table", "tests dump two fixed documents",
     ["src/dumper.rs"], [("truncations and slices stay in range and on character boundaries", "Dumper::dump, quote")],
     "abstract interpretation of the MIR reachable from dumping; one obligation per possible panic", note=ABS)
prop("C05", "Inspecting a node never panics",
     "Every inspection, conversion, comparison, hashing and formatting of a node returns normally for every kind of value, except for indexing, which is documented to panic for a missing item or a wrong type.",
     ["inputs"], "every node value, index and key", "tests inspect a handful of values with the matching accessor",
     ["src/node.rs", "src/yaml.rs", "src/repr.rs", "src/indicator.rs"], [("accessors answer None/Err for other kinds", "Node::as_*, get, Index")],
     "abstract interpretation of the MIR reachable from each public node operation; one obligation per possible panic", note=ABS)
prop("C06", "Serde conversions never panic",
     "Converting between nodes or texts and Rust data through serde returns a value or an error for every node, text and serializable value, and never panics.",
     ["inputs", "programs"], "every node and every serde data type that follows serde's contract", "tests convert a few fixed types from matching data",
     ["src/serde/de.rs", "src/serde/ser.rs", "src/serde/ser_node.rs", "src/serde/stringify.rs", "src/serde/optional.rs", "src/serde/inline_list.rs"],
     [("wrong kinds are errors", "NodeDeserializer / SerSeq, SerMap"), ("serialize_key before serialize_value", "SerMap")],
     "abstract interpretation of the MIR of every serializer and deserializer method; one obligation per possible panic", note=ABS)
prop("C07", "Equal nodes hash equally",
     "Equality of nodes is an equivalence and equal nodes always hash equally, for every pair of values including special and odd spellings of numbers, so nodes work as map keys.",
     ["inputs"], "every pair and triple of node values", "tests compare a few literals; a broken law needs a particular pair, e.g. two spellings of one number",
     ["src/yaml.rs", "src/node.rs"], [("compare and hash through the same canonical key", "PartialEq, Hash for Yaml and Node")],
     "provenance dataflow: equality and hash proved to be functions of one same canonical key per variant", note=FLOW)
prop("C08", "Position and tag do not matter to node identity",
     "Whether two nodes are equal and what a node hashes to depends on the value only: nodes differing in position or tag are the same map key and compare equal.",
     ["inputs"], "every pair of nodes", "tests compare nodes made in one way; a dependence shows only for nodes of different origin",
     ["src/node.rs"], [("only the value is compared and hashed", "PartialEq, Hash for Node")],
     "provenance (information-flow) analysis of equality and hashing", note=FLOW)
prop("C09", "Integers never change silently in serde",
     "An integer which serde reads as an integer from a node, or writes into a node as an integer, is either exactly the same number or an error, for every integer width and sign; it is never wrapped, truncated or clamped. (Reading an integer node as a floating point number is outside.)",
     ["inputs"], "every integer of every width", "tests use small positive numbers; loss needs a value beyond a particular width",
     ["src/serde/de.rs", "src/serde/ser.rs", "src/node.rs"], [("conversion by parsing and checked conversion", "deserialize_* and serialize_* of the integers")],
     "provenance dataflow over the integer conversions; every cast on the way must be value preserving", note=FLOW)
prop("C10", "Serde errors point at the node that does not fit",
     "When a node's kind or range does not fit the requested type, the error carries the position of that very node, for every requested type and every kind of node.",
     ["inputs"], "every requested type against every kind of node", "tests check one error position",
     ["src/serde/de.rs", "src/serde/error.rs"], [("every mismatch error is made with the position of the node at hand", "deserialize_* of Node")],
     "provenance dataflow: the position in every mismatch error must come from the node being read", note=FLOW)
prop("C11", "Accessors answer exactly for their own kind of value",
     "Each typed accessor of a node gives the value for its own documented kinds and an error or nothing for every other kind, carrying the node's position; what it gives is the stored value.",
     ["inputs"], "every accessor against every kind of value", "tests call accessors on the matching kind only",
     ["src/node.rs", "src/yaml.rs"], [("match on the value", "Node::as_*, get, with, Index")],
     "provenance dataflow per accessor and kind, compared with the documented table", note=FLOW)
prop("C12", "A definite parse error is never swallowed",
     "Once a text is found to be definitely wrong somewhere, parsing it reports an error: no surrounding construct discards that error and carries on with another reading.",
     ["inputs"], "every text", "tests have few wrong texts; swallowing needs the wrong part inside a particular construct",
     PARSER, [("only a mismatch is retried", "PError::or, optional"), ("errors are propagated", "? in the loader")],
     "error-flow analysis (typestate of results) over the call graph of the parser", note="Assumes rustc's MIR.")
prop("C13", "An alias to an unknown anchor is an error",
     "In plain mode an alias gives exactly the value its anchor was defined with earlier in the same document, and an alias without such anchor is an error; in cyclic mode it is kept as an alias of that name.",
     ["inputs", "configurations"], "every text in both modes", "tests use one alias in each mode",
     ["src/parser/mod.rs"], [("lookup in the current document's table", "Loader::scalar_term")],
     "provenance dataflow of the alias value and its conditions", note=FLOW)
prop("C14", "Anchors belong to their own document",
     "Each document of a stream has its own anchor table: an anchor is visible to later parts of its own document only, the n-th table returned belongs to the n-th document, and defining a name twice in one document is an error.",
     ["inputs"], "every stream of documents", "tests have anchors in one document",
     ["src/parser/mod.rs"], [("a fresh table and the next index per document", "Loader::doc, scalar_node")],
     "effect analysis of the writes to the anchor tables and provenance of the index used", note=FLOW)
prop("C15", "Multi-threaded nodes are thread safe, single-threaded ones are not",
     "Nodes of the multi-threaded kind, their values, collections and anchor tables can be sent to and shared between threads; nodes of the single-threaded kind cannot, whatever program uses them.",
     ["programs", "schedules"], "every program", "a data race needs a schedule; a test would not even compile",
     ["src/repr.rs", "src/node.rs"], [("Rc or Arc behind the representation", "RcRepr, ArcRepr"), ("no hand written Send/Sync", "whole crate")],
     "type-level compile-pass and compile-fail witnesses against the crate, plus a scan of all impls", note="Assumes rustc's auto traits and std's Rc/Arc.")
prop("C16", "Shared nodes are immutable",
     "A node that has been shared or cloned never changes: no operation on one handle can alter what another handle sees.",
     ["programs", "histories"], "every program", "tests do not mutate; a breach needs a particular sequence of clones and changes",
     ["src/repr.rs", "src/node.rs", "src/yaml.rs"], [("no interior mutability, no unsafe code", "whole crate")],
     "ownership analysis: unsafe, interior mutability (Freeze) and static scan over all types and bodies", note="Assumes soundness of safe Rust and std.")
prop("C17", "Core needs no operating system",
     "Without the standard library feature the crate uses only the core and allocation libraries, in every function and every combination of the other features.",
     ["configurations", "programs"], "every feature set without std", "tests run with all features on a hosted target",
     ["src/lib.rs"], [("no_std attribute and alloc imports", "whole crate")],
     "dependency analysis: every path in the type-checked crate resolved to its origin crate", note="Assumes rustc's resolution.")
prop("C18", "Optional features do not change shared behaviour",
     "Turning optional features on or off adds functions but never changes what the shared ones do.",
     ["configurations"], "every feature set", "tests run with one feature set",
     ["src/lib.rs", "src/parser/error.rs"], [("features only gate whole items", "cfg attributes")],
     "translation validation between feature sets: MIR of every shared function compared", note="Assumes equal MIR means equal behaviour.")
prop("C19", "Both node representations behave the same",
     "Single- and multi-threaded nodes behave identically: every operation gives the same result with either representation.",
     ["inputs", "programs"], "every operation", "tests use one representation",
     ["src/repr.rs", "src/node.rs"], [("generic code over the representation", "Repr")],
     "parametricity analysis: representation reached only through its trait, and the two implementations compared after renaming", note="Assumes Rc and Arc behave alike.")
prop("C20", "Text is never cut inside a character",
     "Multi-byte characters of the text are never split or replaced in what the parser makes of it: the input is only cut next to single-byte characters the grammar knows, and a text is made of all the bytes in between.",
     ["inputs"], "every text", "tests have few non-ASCII texts",
     PARSER, [("the parser stops at ASCII bytes only", "take_while predicates")],
     "abstract interpretation over bytes classes of every stop predicate", note=FLOW)
prop("C21", "Collections keep order and number of items",
     "Sequences and maps made by parsing, by the constructors or by serde keep every item, in the order written; a repeated key keeps one entry with the last value.",
     ["inputs"], "every collection", "tests check short fixed collections",
     ["src/parser/mod.rs", "src/node.rs", "src/serde/ser.rs", "src/serde/de.rs"], [("push in order and collect", "seq, map, FromIterator")],
     "provenance and loop-effect analysis of collection building", note=FLOW)
prop("C22", "Prefixed integers are read in their base",
     "A hexadecimal or octal integer is recognised only with digits of its base and is read as exactly that number, a decimal one as decimal, for every spelling and target width.",
     ["inputs"], "every integer spelling", "tests read one hexadecimal and no octal number",
     ["src/parser/base/grammar.rs", "src/node.rs", "src/serde/de.rs"], [("prefix decides base", "to_i64 and friends"), ("digit classes", "octal, hexadecimal")],
     "provenance dataflow of the base given to digit recognition and conversion", note=FLOW)
prop("C23", "Escapes mean what the table says",
     "In a double-quoted text each escape gives its one documented character and any other escaped character stands for itself; quoting for output uses exactly the inverse, so a quoted string reads back.",
     ["inputs"], "every string", "tests read few escapes",
     ["src/parser/base/grammar.rs", "src/dumper.rs"], [("the escape table", "Parser::escape"), ("the quote table", "dumper quote")],
     "extraction of both character tables from MIR and check that one inverts the other", note=FLOW)
prop("C24", "Plain output is only used for strings that read back",
     "Dumping writes a single-line string without quotes only if reading that very output back gives that same string; every other single-line string is quoted, and special numbers are written in the form the parser reads.",
     ["inputs"], "every string and number", "tests dump few strings",
     ["src/dumper.rs"], [("read-back test before plain output", "is_plain"), ("special floats", "Dumper::dump")],
     "provenance dataflow of every emitted piece and its guard", note=FLOW)
prop("C25", "Serde dispatch follows the kind of the value",
     "For every serde data type and every kind of node, conversion either hands over the stored value in the documented form or is an error; serializing each serde type makes the documented kind of node.",
     ["inputs"], "every serde data type against every kind of node", "tests cover the matching combinations of some types",
     ["src/serde/de.rs", "src/serde/ser.rs"], [("match on the value per requested type", "deserialize_*, serialize_*")],
     "provenance dataflow of visitor calls per requested type and kind, compared with the table", note=FLOW)
prop("C26", "Sibling conversions agree",
     "Types serde treats alike are handled alike: owned and borrowed strings, both byte forms, both float widths, and all integer widths accept the same kinds of node and fail on the same kinds.",
     ["inputs"], "every pair of sibling types against every kind of node", "tests use one of each family",
     ["src/serde/de.rs", "src/serde/ser.rs"], [("same table for siblings", "deserialize_*, serialize_*")],
     "comparison of extracted dataflow tables between sibling methods", note=FLOW)
prop("C27", "Version directives are checked",
     "A second version directive or one of an unsupported version makes parsing an error; only one directive of a supported version is accepted.",
     ["inputs"], "every text", "tests have one valid directive",
     ["src/parser/base/directive.rs"], [("checked once, versions compared", "directive_yaml")],
     "provenance dataflow and dominance of the checks over success", note=FLOW)
prop("C28", "Unknown tag handles are an error",
     "A tag with a handle that was not declared is an error, and with a declared one it gets exactly the declared prefix.",
     ["inputs"], "every text", "tests have one declared handle",
     ["src/parser/base/grammar.rs", "src/parser/base/directive.rs"], [("lookup of the handle", "Parser::tag"), ("declaration", "directive_tag")],
     "provenance dataflow of the tag's text", note=FLOW)
prop("C29", "Special floats are the same in every direction",
     "Not-a-number and both infinities have one stored spelling: reading, constructing, serde in both directions and dumping agree on it and never confuse them with each other or with strings.",
     ["inputs"], "every special float in every direction", "tests cover one direction of some",
     ["src/parser/mod.rs", "src/dumper.rs", "src/node.rs", "src/yaml.rs", "src/serde/de.rs", "src/serde/ser.rs"], [("spelling tables", "scalar_term, Dumper::dump, From<f64>")],
     "extraction of the spelling tables and cross-check", note=FLOW)
prop("C30", "Construction and cloning keep every part",
     "Making, converting, cloning or tagging a node keeps exactly the given value, position and tag; the shared-content clone and all conversions agree.",
     ["inputs"], "every value, position and tag", "tests build a few literals",
     ["src/node.rs", "src/yaml.rs"], [("constructors and conversions", "Node::new, From, Clone")],
     "provenance dataflow of each part of the made node", note=FLOW)
prop("C31", "Serde helper types keep the data",
     "The optional and inline-list helper types give exactly the single item, the list or the absence they were read from, and write it back in the same shape, for every content type; the stringify type keeps the kind it was read as and shows as the text of its value.",
     ["inputs"], "every value", "tests use one value each",
     ["src/serde/optional.rs", "src/serde/inline_list.rs", "src/serde/stringify.rs"], [("conversion between the shapes", "Optional, InlineList")],
     "provenance dataflow of the conversions", note=FLOW)
prop("C32", "Results depend on the arguments only",
     "Parsing, dumping and converting the same input always gives the same result: nothing depends on time, randomness, environment, addresses, threads, earlier calls or hidden state.",
     ["histories", "schedules", "configurations"], "every call history", "a test run sees one history",
     ["src/lib.rs"], [("no ambient input, no global state, ordered maps", "whole crate")],
     "effect analysis over the call graph of every public function", note="Assumes the std functions on the allow list are pure.")

prop("C33", "Walking nodes ends",
     "Dumping any nodes with any anchor tables, every public operation on a node, value or error, and every serde conversion finishes: each repetition counts up to a bound or exhausts a finite collection (or asks the caller's sequence or map for one more item), and the dumper only goes on with parts of the collection it writes, never with what an anchor table holds, so tables which refer to themselves do no harm.",
     ["inputs"], "every node tree, anchor table (also cyclic ones), text of a dump and serde data", "tests dump and inspect small documents; endless repetition needs tables which refer to each other or one particular text",
     ["src/dumper.rs", "src/node.rs", "src/yaml.rs", "src/indicator.rs", "src/serde/de.rs", "src/serde/ser_node.rs"], [("recursion of the dumper", "Dumper::dump, part"), ("anchors are looked up once", "Node::as_anchor"), ("items of a caller", "NodeVisitor::visit_seq, visit_map"), ("lines of a text", "indicated_msg")],
     "ranking measures of every loop (abstract interpretation), cycles of the call graph, provenance of what the dumper goes on with")
prop("C34", "Dumping leaves nothing out",
     "Dumping writes every document, every item of a sequence, every key with its value and every line of a text exactly once, in order and one level deeper than what it is in, each with its anchor and its tag if that is not a default one, so that reading sees the same structure; nothing else is written.",
     ["inputs"], "every node tree and anchor tables", "tests dump two documents; most combinations of kinds, places and first or later items do not occur in them",
     ["src/dumper.rs"], [("each turn over the items writes exactly its item", "Dumper::dump"), ("each document is dumped with its own table", "dump")],
     "provenance and loop-effect dataflow of the written text per kind and place", note=FLOW)
prop("C35", "Positions tell where",
     "A node made by parsing carries the position the parser had reached behind the node's anchor and tag and before anything of its value; a definite error shows the position reached; and a position is shown as the line of the text that holds it, its number and the column, both from one, with a mark below the column.",
     ["inputs"], "every text and every position in it", "tests check the message of one position and few positions of nodes",
     ["src/indicator.rs", "src/parser/mod.rs", "src/parser/base/mod.rs", "src/parser/error.rs"],
     [("position read before the value", "Loader::scalar_node"), ("message of a position", "indicated_msg"), ("definite errors", "Parser::err")],
     "provenance dataflow over parser states and of the message's pieces", note=FLOW)
prop("C36", "Plain scalars have their documented kind",
     "A plain scalar is null, a boolean or a special float exactly for the documented spellings; it is a number exactly when its text has the documented form of an integer or a float and the end of the text, a blank or line end, or one of : { } [ ] , follows, over any blanks and a comment behind them; any other plain text, and every quoted or block text whatever it says, is a string.",
     ["inputs"], "every text of a scalar and everything that may follow it", "tests sample a few words and numbers",
     PARSER, [("kinds of plain text", "Loader::scalar_term"), ("numbers", "Parser::int, float, sci_float"), ("what may follow", "Parser::bound")],
     "provenance dataflow; evaluation of the spelling table; language equality of the number forms", note=FLOW)
prop("C37", "The layout decides the structure of a collection",
     "A block sequence or mapping is read exactly as: a line end and the indentation of its level (behind a key, one which defines that level, behind nothing at all none), `-` and a blank, or a key (behind `?` and a blank, with its own line, or on the line) and `:` and a blank, then one item read one level further in, again and again; it ends where the text or document ends, a line has less indentation, or (for a sequence) does not begin with `-` and a blank, and then leaves everything behind its last item to the collection around it; every other continuation is an error. A flow sequence or mapping is its opening sign, items one level further in (explicit keys, or keys followed by `:`) with any blanks and line ends before and behind them and one comma between them, one more comma allowed, and its own closing sign. The indentation of a level is the sum of the widths of the levels up to it: a level is as wide as the blanks behind the level around it when a key defined it, two otherwise, and the widths of levels inside are forgotten; a gap counts its line ends and leaves the indentation of the next line; a document ends with the text or at `---` or `...`, of which nothing is taken. This holds for every number of items, every depth and every width.",
     ["inputs"], "every number of items, level, width and text between the items", "tests sample a few documents of small depth; most combinations of first or later items, kinds of keys, comments and ends do not occur in them",
     PARSER, [("order of reads in a collection", "Loader::seq, map, seq_flow, map_flow"), ("explicit keys", "Parser::complex_mapping"), ("indentation", "Parser::ind, ind_define"), ("lines between items", "Parser::gap"), ("end of a document", "Loader::doc_end")],
     "provenance dataflow over parser states; inclusion between the regular language of the reads on all ways through a collection's loop and the documented one", note=FLOW)
prop("C38", "Scanning primitives take exactly what they match",
     "take_while takes the longest run of accepted bytes within the limit of its option (One: exactly one; More(least): no limit; Range(least, most) for a most of one or more); when the run is shorter than the least it is an error and the parser is back at the check point. sym and sym_set take exactly one byte, the given one or one of the given, sym_seq exactly the given bytes in their order; a mismatch is an error. ws takes ASCII blanks other than line ends, inv all ASCII blanks, with the limit given; nl takes one line end of CRLF, LFCR, LF or CR, the longest first. bound is satisfied at the end of the text or in front of one of `:{}[] ,` and line ends. forward and back move the cursor to where they say, text is the text between the check point and the cursor, food what is behind the cursor, pos the cursor's byte offset; context runs its step with a check point of its own and brings the outer one back, whether the step fails or not.",
     ["inputs"], "every text, cursor, check point, option and accepted set", "tests call a few primitives on one or two inputs; the limits of runs, the restored check points and the ends of the text are not sampled",
     PARSER, [("runs", "Parser::take_while"), ("one byte or a sequence", "Parser::sym, sym_set, sym_seq"), ("blanks and line ends", "Parser::ws, inv, nl, bound"), ("cursor and check point", "Parser::forward, backward, back, pos, text, food, context")],
     "region-wise dataflow over cursor, check point and taken bytes of every path of a primitive, against the documented effect", note=FLOW)
prop("C40", "Dump then parse gives the same nodes",
     "Parsing the dump of any nodes gives equal nodes.", ["inputs"], "every node tree", "tests round-trip a few documents",
     ["src/dumper.rs"] + PARSER, [("dumper and parser agree", "Dumper::dump, Loader")],
     na="The agreement of two recursive text transformers over unbounded strings (indentation, folding, multi-line literals) is a value-level relation no sound static analysis in reach decides; it is known not to hold for every multi-line string, since the dumper trims by design. The decidable parts are C23, C24 and C29.")
prop("C41", "Multi-line scalars fold as YAML says",
     "Literal, folded, plain and quoted multi-line scalars give the text the YAML specification prescribes for every indentation and line structure.", ["inputs"],
     "every text", "tests sample some layouts", PARSER, [("line folding", "string_wrapped, string_plain, string_quoted")],
     na="Needs a specification of the resulting string for every text (an oracle over unbounded strings); static dataflow shows where pieces come from (C20) but not that the number of newlines and spaces is the specified one.")
prop("C42", "Positions are exact",
     "The position of every node is the byte offset of the first character of its value as the YAML grammar defines it, for every text.", ["inputs"], "every text", "tests check few positions",
     PARSER, [("position read before the value", "Loader::scalar_node")],
     na="Which byte starts a value is defined by the grammar of the text itself; stating it statically would restate the parser, and any independent oracle has to run. C35 decides the part which is about this code: which reading position is stored.")
prop("C43", "Serde round trip keeps values",
     "Deserializing what was serialized gives the same data for every type.", ["inputs", "programs"], "every serde type", "tests round-trip few types",
     ["src/serde/de.rs", "src/serde/ser.rs"], [("dispatch tables", "deserialize_*, serialize_*")],
     na="Quantifies over user types' own serde code, which static analysis of this crate cannot see; the crate's halves are decided by C09, C25, C26, C29 and C31.")
prop("C44", "Parsing takes time and memory in proportion",
     "Parsing takes time and memory bounded by a small multiple of the text's length.", ["inputs"], "every text", "tests parse small texts",
     PARSER, [("backtracking is local", "Loader::scalar")],
     na="A cost bound needs amortised reasoning about nested backtracking and buffer growth; termination (C02) is what a static ranking argument reaches here. Backtracking over nested map keys is in fact superlinear.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        checks, na = [], []
        for p in P:
            have = os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py"))
            if not have and not p["na"]:
                continue
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
            if have:
                c = "python3 check.py " + p["id"]
                checks.append({"property": p["id"], "quick_cmd": c, "thorough_cmd": c, "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
            else:
                na.append({"property": p["id"], "reason": p["na"]})
    json.dump({"version": 1, "setup_cmd": "python3 lib/facts.py all", "checks": checks, "not_applicable": na},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed,", len(na), "not applicable")


main()
