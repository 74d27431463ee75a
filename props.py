"""The properties, one entry each; tools/gen.py writes properties.jsonl and MANIFEST.json from here."""


def P(id, title, statement, over, text, why, files, mechanism, note, observe=(), state=(), claimed=True, reason=None,
      technique=None, level="model_checking"):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mechanism=mechanism, note=note, observe=observe, state=state, claimed=claimed, reason=reason,
                technique=technique, level=level)


PROPS = [
    P("C01", "Media types: canonical written form and JSON recognition",
      "The written form of a media type is type/subtype, then +suffix if there is one, then \"; name=value\" for every "
      "parameter with a name, in order; a value that is empty or has a character that is no token character is quoted, with quotes, "
      "backslashes and carriage returns escaped, so that reading the written form back gives the same media type. A "
      "media type without a type or a subtype is written as nothing. A media type is recognised as JSON or as JSON "
      "Schema exactly according to its type, subtype and suffix, in any letter case and whatever its parameters.",
      ["inputs"], "every media type over a bounded alphabet of type, subtype, suffix, parameter names and values; selected inputs of every size up to some hundreds or thousands",
      "The tests sample a handful of literals; quoting and recognition have to be right for every value.",
      ["packages/apib/src/MediaType.cc", "packages/drafter/src/backend/MediaTypeS11n.cc"],
      [("serialisation", "packages/drafter/src/backend/MediaTypeS11n.cc"), ("predicates", "packages/apib/src/MediaType.cc")],
      "Every media type of the bounded space is written by the real code and compared with an independent writer and "
      "re-read by an independent reader; the bounds are on lengths and alphabets.",
      technique="bounded exhaustive enumeration of inputs on the real code against a reference model"),
    P("C02", "Byte ranges convert to the character ranges that cover the same text",
      "For every document and every list of byte ranges, converting to characters yields, range by range and in order, "
      "the characters those bytes belong to, cut at the end of the document, whether done from the text or from a "
      "precomputed index; taken as one stretch they become the characters from the first range to the end of the last. The text picked out by a list of byte ranges is the concatenation of their bytes. Appending "
      "one list of ranges to another covers what both covered, in order, and joins them where one ends and the other starts.",
      ["inputs"], "every document up to a length bound over an alphabet of one- to four-byte characters, and every "
      "range or list of ranges into it",
      "Tests use a few documents and ranges; off-by-one and out-of-bounds faults need particular positions.",
      ["packages/apib-parser/src/markdown-parser/ByteBuffer.cc", "packages/apib-parser/src/markdown-parser/ByteBuffer.h"],
      [("conversion", "packages/apib-parser/src/markdown-parser/ByteBuffer.cc")],
      "Exhaustive over all documents and ranges within the bounds, on the real code under AddressSanitizer.",
      technique="bounded exhaustive enumeration of inputs on the real code against a reference model"),
    P("C03", "UTF-8 decoding is total and exact",
      "Decoding any byte string terminates without reading beyond it. Well-formed sequences yield their code points; "
      "anything else (stray continuation bytes, truncated or overlong sequences, surrogates, values beyond "
      "U+10FFFF) yields the replacement character. Encoding a code point and decoding it gives the code point back.",
      ["inputs"], "every code point; every byte string up to four bytes; longer strings over a reduced alphabet; selected inputs of every size up to some hundreds or thousands",
      "The tests decode a few strings; malformed input is unbounded and hits untested branches.",
      ["packages/drafter/src/utils/Utf8.h"],
      [("decoder and encoder", "packages/drafter/src/utils/Utf8.h")],
      "All code points and all short byte strings are enumerated on the real code under AddressSanitizer.",
      technique="bounded exhaustive enumeration of inputs on the real code against a reference model"),
    P("C04", "Positions in reports are the line and column of the character",
      "For every document, a source-map position is reported with the 1-based line it is on and the 1-based column of "
      "its character in that line, whatever the mix of line lengths, multi-byte characters and a missing final "
      "newline (a range that ends beyond the last newline is reported to end at column 1 of the line after it). Every annotation of a report is printed once, in order, with its kind, code, message and all of its "
      "positions, as characters or as lines and columns.",
      ["inputs"], "every document up to a length bound, every position and range in it, every short list of annotations; selected inputs of every size up to some hundreds or thousands",
      "Tests use one document; line ends, multi-byte characters and the last line are exactly where it goes wrong.",
      ["packages/drafter/src/SourceMapUtils.cc", "packages/drafter/src/reporting.cc"],
      [("line table and lookup", "packages/drafter/src/SourceMapUtils.cc"), ("printing", "packages/drafter/src/reporting.cc")],
      "Exhaustive over documents and ranges within the bounds, on the real code under AddressSanitizer.",
      technique="bounded exhaustive enumeration of inputs on the real code against a reference model"),
    P("C05", "Markdown trees keep shape, contents and parents through copies",
      "A node of a Markdown tree has the type, text, data, source map and children it was given, and every child's "
      "parent is the node that holds it, through any sequence of child additions, copies, assignments (of a child to "
      "its own parent as well) and destruction of the originals. A copy is independent of what it was copied from. "
      "The documented properties of a node (its children, parent, type) stay usable in every such state.",
      ["histories"], "every sequence of tree operations up to a depth bound, every copy of every tree up to a size bound; selected inputs of every size up to some hundreds or thousands",
      "The tests copy one tree once; ownership faults need particular sequences of additions, copies and deletions.",
      ["packages/apib-parser/src/markdown-parser/MarkdownNode.cc", "packages/apib-parser/src/markdown-parser/MarkdownNode.h"],
      [("copy and ownership of children", "packages/apib-parser/src/markdown-parser/MarkdownNode.cc")],
      "Explicit-state search over histories of the real class (AddressSanitizer) against plain reference trees.",
      technique="explicit-state exploration of operation histories on the real code against a reference model"),
    P("C06", "Regular expression matching and capturing",
      "A text matches a POSIX extended regular expression exactly when the expression matches some part of it; letter "
      "case matters, an empty text matches nothing, and an empty or malformed expression matches nothing. "
      "Capturing reports success exactly on a match, and then yields as many captures as asked for: the whole match first, "
      "then each group, with an empty string for a group that took no part; the first group alone can be asked for as well.",
      ["inputs"], "every expression tree up to a size bound against every string up to a length bound; selected inputs of every size up to some hundreds or thousands",
      "The tests use three expressions; empty groups, absent groups, too many groups and malformed input are not covered.",
      ["packages/apib-parser/src/snowcrash/posix/RegexMatch.cc"],
      [("matching", "packages/apib-parser/src/snowcrash/posix/RegexMatch.cc")],
      "The reference decides membership by structural recursion on the expression tree, without a regex engine.",
      technique="bounded exhaustive enumeration of inputs on the real code against a reference model"),
    P("C07", "Clones, copies and moves of data structures are exact and independent",
      "Cloning an element gives an element of the same kind with exactly the selected parts: its name, its attributes, "
      "its meta (without the id, if asked), its value. A full clone, a copy, an assignment or a move gives exactly the "
      "same content at every level of nesting. Changing or destroying any of them never changes another.",
      ["inputs", "histories"], "every element of every kind up to a nesting and width bound, with every set of clone flags; selected inputs of every size up to some hundreds or thousands",
      "The tests clone a few literals with few flags; deep aliasing shows only when both copies are changed and destroyed.",
      ["packages/drafter/src/refract/Element.h", "packages/drafter/src/refract/ElementIfc.h",
       "packages/drafter/src/refract/InfoElements.cc", "packages/drafter/src/refract/dsd"],
      [("clone", "packages/drafter/src/refract/Element.h"), ("copies of values", "packages/drafter/src/refract/dsd")],
      "Every element of the space is cloned with all 32 flag sets, copied, assigned, moved, then spoilt and destroyed, on "
      "the real code under AddressSanitizer.",
      technique="bounded exhaustive exploration of elements and operations on the real code against a reference model"),
    P("C08", "Equality of data structures is structural",
      "Two elements are equal exactly if they are of the same kind, both with or without a value, and their values, "
      "attributes and meta are equal throughout (their names play no part); the relation is an equivalence and comparing "
      "never changes or dereferences anything absent. The comparison that ignores some attribute and meta keys compares "
      "the names as well, takes attributes and meta in any order and ignores exactly those keys. Two values are equal exactly if they are of the same kind and hold the same.",
      ["inputs"], "every pair of elements of a bounded space covering all kinds, with and without values and info; selected inputs of every size up to some hundreds or thousands",
      "The tests compare a handful of pairs of the same kind; mixed kinds and absent values crash or lie only in particular pairs.",
      ["packages/drafter/src/refract/Element.h", "packages/drafter/src/ElementComparator.h",
       "packages/drafter/src/refract/ComparableVisitor.cc", "packages/drafter/src/refract/dsd"],
      [("structural comparison", "packages/drafter/src/refract/Element.h"),
       ("comparison ignoring keys", "packages/drafter/src/ElementComparator.h")],
      "All pairs of a space of elements are compared by the real code and by a recursive reference.",
      technique="bounded exhaustive enumeration of pairs on the real code against a reference model"),
    P("C09", "Attributes and meta are ordered maps of unique keys",
      "The attributes and the meta of an element behave, through every sequence of setting, erasing, claiming, clearing, "
      "copying, moving and swapping, as maps that keep their keys unique and in the order of first setting, and that own "
      "their elements: a claimed element goes to the caller unharmed, a copied map shares nothing. Appending a value to "
      "a list kept under a key makes the list if there is none, and adds exactly that value unless it is in there already.",
      ["histories"], "every reachable state of two maps over three keys and all operations; every sequence of appended values up to a bound; selected inputs of every size up to some hundreds or thousands",
      "The tests set and erase a few keys in one order; aliasing, replacement and ownership depend on the history.",
      ["packages/drafter/src/refract/InfoElements.cc", "packages/drafter/src/refract/InfoElements.h",
       "packages/drafter/src/refract/InfoElementsUtils.h"],
      [("the map", "packages/drafter/src/refract/InfoElements.cc"), ("appending", "packages/drafter/src/refract/InfoElementsUtils.h")],
      "Breadth-first search over the states of two maps; every transition is replayed on the real class under AddressSanitizer.",
      technique="explicit-state exploration of operation histories on the real code against a reference model"),
    P("C10", "Containers of elements are owning sequences; object members unique",
      "Arrays, objects, options, selects and extends are sequences that own their entries through every sequence of "
      "insertion, erasure (of one or a range), transfer, copying, moving, swapping and clearing; members, enums and holders own "
      "their key and value likewise and give them up when claimed. Adding a member to the end of an object replaces "
      "an earlier one of the same name, and looking one up by name finds the first member of that name or nothing.",
      ["histories"], "every reachable state of two containers of each type up to a size bound, and every operation on it; selected inputs of every size up to some hundreds or thousands",
      "The tests exercise single operations; aliasing and iterator faults depend on position and history.",
      ["packages/drafter/src/refract/dsd"],
      [("sequences", "packages/drafter/src/refract/dsd/Traits.h"), ("objects", "packages/drafter/src/refract/dsd/Object.cc"),
       ("members", "packages/drafter/src/refract/dsd/Member.cc")],
      "Breadth-first search over container states; every transition is replayed on the real classes under AddressSanitizer.",
      technique="explicit-state exploration of operation histories on the real code against a reference model"),
    P("C11", "The registry of named types: unique names, reserved names, root ancestors",
      "Through every sequence of additions and removals the registry gives for a name exactly the element first added under "
      "it and not removed since; a second addition is refused and changes nothing; an element without an id, with an id that is no "
      "string, or with one of the 13 reserved names is an error. A name is reserved exactly if it is one of those. The root ancestor of a "
      "name is the last registered type reached by following base types, and is found for any inheritance graph, cyclic ones included.",
      ["histories", "inputs"], "every state of a registry over four names; all names near the reserved ones; every inheritance graph of four types; selected inputs of every size up to some hundreds or thousands",
      "The tests register a few types; refused additions and cyclic or dangling inheritance are not covered.",
      ["packages/drafter/src/refract/Registry.cc", "packages/drafter/src/refract/Element.cc"],
      [("registry", "packages/drafter/src/refract/Registry.cc"), ("reserved names", "packages/drafter/src/refract/Element.cc")],
      "State search over the real registry and exhaustive enumeration of inheritance graphs.",
      technique="explicit-state exploration of operation histories on the real code against a reference model"),
    P("C12", "Expansion of named types terminates and is exact",
      "For every registry of types, however they inherit, contain or mix in each other, expanding an element ends and leaves the "
      "element and the registry as they were. The result has no named type left: such an element becomes the chain of its ancestors, the "
      "furthest first, each without its id and marked with the name it comes from, followed by its own content; a mixin gets "
      "what it refers to, and everything else is kept. A type found again inside itself becomes a marked empty element; a type mixed into itself is an error.",
      ["inputs"], "every graph of two types (base, members, arrays, mixins), many graphs of three, and a named element in every place; selected inputs of every size up to some hundreds or thousands",
      "The tests expand some graphs; termination and exactness have to hold for cyclic ones through any mixture of edges.",
      ["packages/drafter/src/refract/ExpandVisitor.cc", "packages/drafter/src/refract/IsExpandableVisitor.cc",
       "packages/drafter/src/refract/Registry.cc"],
      [("expansion", "packages/drafter/src/refract/ExpandVisitor.cc"), ("need for expansion", "packages/drafter/src/refract/IsExpandableVisitor.cc")],
      "Every graph of the bounded space is expanded by the real code and by an independent recursive reference; hangs and stack "
      "overflows are detected per case.",
      technique="bounded exhaustive enumeration of type graphs on the real code against a reference model"),
    P("C13", "Merging a chain of types: the later one wins, nothing is lost",
      "Merging the elements of an extend gives one element that starts as the first and takes from each later one, in order: its attributes and "
      "its meta (but id, prefix and namespace), a primitive or enum value, the items of an array at the end, the members and mixins "
      "of an object in the place of the one they override (of the same name or symbol) or at the end, and the values of an enumeration, which move to the end. "
      "Elements of different kinds, or of kinds that cannot be merged, are an error; what is merged is left unchanged and shared by nothing.",
      ["inputs"], "every chain up to a length bound over spaces of elements of all kinds, with and without values, attributes and meta; selected inputs of every size up to some hundreds or thousands",
      "The tests merge a few chains; overriding inside choices, elements without a value and order are easily lost.",
      ["packages/drafter/src/refract/dsd/Extend.cc"],
      [("merge", "packages/drafter/src/refract/dsd/Extend.cc")],
      "Every chain of the space is merged by the real code and by an independent reference.",
      technique="bounded exhaustive enumeration of chains on the real code against a reference model"),
    P("C14", "Visiting, kind queries, walking, filtering and printing see elements as they are",
      "Visiting an element calls the handler of its own kind, once, with that very element, in every way there is to visit; asking for an element "
      "as a kind gives it if it is of that kind and nothing otherwise; whether it is a text, or the key or value of a member is, is answered exactly. Walking and filtering see the element and all its value contains, each once and in order, "
      "and its children alone if asked for those. The printed outline shows, in order, the name, meta, attributes (source maps aside) and content of the element and all in it.",
      ["inputs"], "elements of every kind, with and without value, attributes and meta, nested up to a bound, through every visitor; selected inputs of every size up to some hundreds or thousands",
      "The tests visit a few kinds; a handler that is missing or does not recurse shows only for the kind or the nesting it is for.",
      ["packages/drafter/src/refract/TypeQueryVisitor.cc", "packages/drafter/src/refract/TypeQueryVisitor.h",
       "packages/drafter/src/refract/Iterate.h", "packages/drafter/src/refract/FilterVisitor.h",
       "packages/drafter/src/refract/PrintVisitor.cc", "packages/drafter/src/refract/Visitor.h", "packages/drafter/src/refract/Utils.h",
       "packages/drafter/src/refract/Query.cc", "packages/drafter/src/refract/ComparableVisitor.cc"],
      [("visiting", "packages/drafter/src/refract/Utils.h"), ("kind queries", "packages/drafter/src/refract/TypeQueryVisitor.cc"),
       ("walking", "packages/drafter/src/refract/Iterate.h"), ("outline", "packages/drafter/src/refract/PrintVisitor.cc")],
      "Every element of the space is visited, queried, walked, filtered and printed by the real code; a recursive reference says what each must give.",
      technique="bounded exhaustive enumeration of elements on the real code against a reference model"),
    P("C15", "The value, key, description and members of an element are those it holds",
      "The value of an element is its content, else its first sample, else its default, where those are of its kind, else nothing if it is nullable; an enum "
      "prefers its sample and its default. Its type attributes, key, description and name are those kept in its attributes, key and meta, an inherited "
      "key being the merge of what it extends, and the member of an object found by a key is the first with that text. Members and items are collected with those of resolved mixins in place.",
      ["inputs"], "elements of every kind with every combination of content, samples, default and type attributes; objects of up to four entries; selected inputs of every size up to some hundreds or thousands",
      "The tests read values from a few blueprints; the order of preference and the empty cases need every combination.",
      ["packages/drafter/src/refract/VisitorUtils.cc", "packages/drafter/src/refract/VisitorUtils.h",
       "packages/drafter/src/refract/ComparableVisitor.cc"],
      [("value", "packages/drafter/src/refract/VisitorUtils.h"), ("key", "packages/drafter/src/refract/VisitorUtils.cc"),
       ("member by key", "packages/drafter/src/refract/ComparableVisitor.cc")],
      "Every element of the space is asked by the real code; a reference reads the same from the model of the element.",
      technique="bounded exhaustive enumeration of elements on the real code against a reference model"),
    P("C16", "The number of values a type allows is counted exactly or is open",
      "For every type: null allows one value; a string or number any number (open), but one if it is fixed, or is in a fixed parent and has a value, "
      "sample or default; a boolean likewise two or one. An object allows the product over its content if it is fixed, fixed in type or in a fixed parent, else is open; a fixed array the "
      "product of its items; an enum and a select the sum of their choices; a member what its value allows, open if its key is variable; an extension, a holder and a resolved reference what they hold. "
      "Nullable adds one. A count that does not fit is open; nothing times open is nothing. Counting changes nothing.",
      ["inputs"], "all types of the given leaves with every combination of attributes, nested up to a bound; sums and products of all pairs of sizes around every power of two; selected inputs of every size up to some hundreds or thousands",
      "The tests count a few types; sizes that overflow and the mix of fixed, nullable and open need every combination.",
      ["packages/drafter/src/refract/ElementSize.cc", "packages/drafter/src/refract/ElementSize.h", "packages/drafter/src/refract/Cardinal.h"],
      [("size of a type", "packages/drafter/src/refract/ElementSize.cc"), ("arithmetic", "packages/drafter/src/refract/Cardinal.h")],
      "Every type of the space is counted by the real code and by a reference in 128-bit arithmetic. An array with fixedType and no content allows nothing, else is open.",
      technique="bounded exhaustive enumeration of types on the real code against a reference model"),
    P("C17", "What is said of a type is kept and is found again",
      "After any history of saying things of an element (a type attribute, fixed, a default, a sample, an enumeration), in any order, it has each type attribute said once, all samples and "
      "enumerations in the order said, the default said last, what it had before, and nothing else. Asked, it tells "
      "exactly these: its type attributes, its default, its first sample, its value (its content, else its first sample, else its default), whether it is variable, whether a fixed parent "
      "fixes it, what it is as a key, and its kind. Malformed attributes (not a list, empty, without text) count as absent; asking changes nothing.",
      ["histories", "inputs"], "every history of up to four statements on elements of every kind; every combination of attributes, samples, default and variable on every kind; selected inputs of every size up to some hundreds or thousands",
      "The tests say one thing of a few elements; a later statement that spoils an earlier one shows only in histories.",
      ["packages/drafter/src/refract/ElementUtils.cc", "packages/drafter/src/refract/ElementUtils.h"],
      [("statements and questions", "packages/drafter/src/refract/ElementUtils.cc")],
      "Every history is applied to the real element and to a model of it, then both are asked everything.",
      technique="exhaustive exploration of operation histories on the real code against a reference model"),
    P("C18", "Texts are trimmed, split, replaced, unquoted and compared exactly",
      "For every text: trimming removes exactly the white space (space, tab, line feed, carriage return, vertical tab, form feed) at its ends, and the range of what is left of a part is inside that part; "
      "splitting cuts at every delimiter, or at the first; replacing changes every occurrence once, from the left, and leaves the rest; "
      "taking what is escaped takes from the opening run of a character up to an equal run and leaves the rest; backticks and link marks are stripped from what is all in them; "
      "comparing without regard to letter case folds exactly the ASCII letters.",
      ["inputs"], "every text up to a length bound over alphabets of the special characters of each operation; selected inputs of every size up to some hundreds or thousands",
      "The tests trim and split a few literals; white space alone, delimiters at the ends and overlapping matches need every text.",
      ["packages/apib-parser/src/snowcrash/StringUtility.h", "packages/apib-parser/src/snowcrash/BlueprintUtility.h"],
      [("text utilities", "packages/apib-parser/src/snowcrash/StringUtility.h")],
      "Every text within the bounds is given to the real code and to a reference. Texts too short for two trailing new lines, and [..] that is no link, are left out.",
      technique="bounded exhaustive enumeration of inputs on the real code against a reference model"),
    P("C19", "Log entries are whole lines under every interleaving of threads",
      "Whatever threads write to the log and however they interleave, each entry appears once, as one line of its own: its severity, thread, file and line, then all that was "
      "logged in it, in one piece; the entries of a thread are in its order; no thread waits for ever. Entries of a severity that is not "
      "written leave no trace at all. Nothing is written before the log is turned on; an entry under way meanwhile is written whole or not at all.",
      ["schedules"], "every schedule, up to a bound on preemptions, of two or three threads that write up to two entries of any severity and number of pieces; selected inputs of every size up to some hundreds or thousands",
      "The tests write to the log from one thread; a lock given up too early shows only under particular schedules.",
      ["packages/drafter/src/utils/log/Trivial.cc", "packages/drafter/src/utils/log/Trivial.h"],
      [("log", "packages/drafter/src/utils/log/Trivial.cc")],
      "Scheduling points are the log's mutex, every piece of text written, every printing of a logged object. Preemptions: 2 (quick), 3 to 4 (thorough).",
      technique="stateless exploration of all thread schedules of the real code up to a preemption bound under a controlled scheduler"),
    P("C20", "What is written as JSON or as YAML reads back as the value it was",
      "Every generic value (null, booleans, strings of any valid UTF-8, numbers, lists, objects with members in order) written as JSON, as packed JSON or as YAML is read back, by a strict reader of "
      "RFC 8259 JSON or YAML 1.2, as exactly that value: no key or string reads as something else, and YAML has printable characters only. JSON has one value or member a line, indented by two spaces a level; packed JSON has no white space.",
      ["inputs"], "every Unicode character in strings and keys, every string up to a length over the special characters, every word YAML gives a meaning, every value up to three levels, nesting up to 100; selected inputs of every size up to some hundreds or thousands",
      "The tests write a few values and compare texts; a character or word that reads back as something else needs every character, word and place.",
      ["packages/drafter/src/utils/so/JsonIo.cc", "packages/drafter/src/utils/so/YamlIo.cc", "packages/drafter/src/utils/Utf8.h"],
      [("JSON", "packages/drafter/src/utils/so/JsonIo.cc"), ("YAML", "packages/drafter/src/utils/so/YamlIo.cc")],
      "The readers are written for the check from the standards and share no code with drafter.",
      technique="bounded exhaustive enumeration of inputs on the real code with independent readers as oracle"),
    P("C21", "Elements are rendered exactly, with source maps only where asked for",
      "The generic value an element is rendered as has its name, then its meta and its attributes where there are any, in order, then its content where it has one, in the shape of its kind: nothing lost, added, renamed or reordered at "
      "any depth. Where source maps are not asked for, exactly the entries named sourceMap are left out of meta and attributes, except among the attributes of annotations. Rendering changes nothing, and what is rendered reads back from its JSON and YAML.",
      ["inputs"], "every kind with every combination of attributes, meta, source maps and names; every container of up to four entries (thorough) of every mix; wide and deep ones; selected inputs of every size up to some hundreds or thousands",
      "The fixtures are rendered with one set of options; the rules on source maps and on what is empty need every combination of kind, name and depth.",
      ["packages/drafter/src/refract/SerializeSo.cc"],
      [("rendering", "packages/drafter/src/refract/SerializeSo.cc")],
      "Rendered elements are compared with what a reference model of the element gives.",
      technique="bounded exhaustive enumeration of states on the real code against a reference model"),
    P("C22", "Generic values are compared, found and added by content",
      "Two generic values are equal exactly if they are of one kind with equal content; objects whatever the order of their members, lists in order, numbers as written. A member is found by its exact key. "
      "Setting a member replaces the value of that key in its place or adds it at the end; adding to a list changes it exactly if no equal item is there.",
      ["histories", "inputs"], "every pair of values up to three levels; every history of setting members or adding items up to a depth; selected inputs of every size up to some hundreds or thousands",
      "The tests compare a few values; asymmetry, order and replacement show only in all pairs and histories.",
      ["packages/drafter/src/utils/so/Value.cc", "packages/drafter/src/utils/so/Value.h"],
      [("values", "packages/drafter/src/utils/so/Value.cc")],
      "Objects have distinct keys, as setting members leaves them.",
      technique="exhaustive exploration of operation histories on the real code against a reference model"),
    P("C23", "Parsing ends for any document with a well-formed result placed in the document",
      "Parsing ends, for any document, without fault, with a parse result: exactly one API category first (at most one where there is an error), then at most one error, whose code is what is returned, then warnings; each annotation has a class, a code and a text, "
      "and none is an internal error. No entry is missing anywhere. Every source map is a list of ranges in ascending order inside of the document, in bytes; a text, number or boolean with one is found where it says. "
      "Places of annotations are in characters, and the lines and columns they give are those of their ranges.",
      ["inputs", "edits"], "every document of a context and up to two (thorough: three) lines of a vocabulary of 59 lines, alone or as blocks; every such line cut at every character; every fixture of up to 1024 bytes with every edit of a line (thorough: two edits)",
      "The fixtures are documents someone thought of; crashes, endless loops and wrong places come from combinations of sections nobody would write.",
      ["packages/drafter/src/drafter.cc", "packages/apib-parser/src/snowcrash/snowcrash.cc", "packages/apib-parser/src/markdown-parser/MarkdownParser.cc", "packages/drafter/src/SerializeResult.cc"],
      [("parsing", "packages/apib-parser/src/snowcrash/snowcrash.cc"), ("parse result", "packages/drafter/src/SerializeResult.cc")],
      "With stand-ins for the submodules that are absent here (Markdown block parser, grammar library), validated by the repository's own suites. Two known findings on places of annotations (F20, F21). What is no number or boolean counts as 0 or false.",
      technique="bounded exhaustive enumeration of documents on the real code with invariants checked on every result"),
    P("C24", "Numbers are kept as written and read back exactly as integers",
      "A number keeps the text it was written as: not a digit, sign, fraction or exponent is lost, however long, in copies too; two numbers are equal exactly if their texts are. Made from an integer of any integral type it has that integer's digits; "
      "read as an integer it is exactly its whole part, wherever that fits into 64 bits, and reading never fails. A text counts as a number exactly if it is one of JSON (white space after it aside), as a boolean exactly if it is true or false.",
      ["inputs"], "every number text up to 6 (thorough: 7) characters; the neighbours of all powers of two and ten with fractions and exponents; the edges of every integral type; every text up to 6 (7) characters of numbers, any two bytes",
      "The tests convert one-digit numbers; what overflows or rounds shows only at the edges of each type.",
      ["packages/drafter/src/refract/dsd/Number.cc", "packages/drafter/src/refract/dsd/Number.h", "packages/drafter/src/Serialize.cc"],
      [("number", "packages/drafter/src/refract/dsd/Number.cc"), ("literals", "packages/drafter/src/Serialize.cc")],
      "A whole part that does not fit into 64 bits is not specified.",
      technique="bounded exhaustive enumeration of inputs on the real code against a reference model"),
    P("C25", "The library's calls agree, and options do exactly what they say",
      "For any document: parsing, parsing and serializing at once, and checking return the same code; serializing at once gives the text serializing the result gives; checking gives exactly the annotations of the result, and nothing where there are none. "
      "JSON and YAML output have the same content; source maps add source maps and nothing else. No options are the same as options with nothing set, each option set is set for good and no other with it, in any order. Not generating bodies or schemas leaves out "
      "exactly the generated ones; requiring a name is an error exactly where there is none, and changes nothing elsewhere. No source is invalid input.",
      ["inputs", "histories", "fixtures", "whole-fixtures"], "every document of a context or a payload and up to one (thorough: two) lines of the vocabulary with every combination of options; every history of up to 4 settings of options; every fixture, and every edit of a line of the small ones",
      "The tests use each call with one document and set of options; disagreements need the same document through all of them.",
      ["packages/drafter/src/drafter.cc", "packages/drafter/src/options.cc", "packages/drafter/src/options.h"],
      [("library calls", "packages/drafter/src/drafter.cc"), ("options", "packages/drafter/src/options.cc")],
      "The oracle is the library itself through its other calls, plus independent readers of JSON and YAML.",
      technique="bounded exhaustive enumeration of documents, options and option histories on the real code, compared across calls"),
    P("C26", "What a call gives depends on its arguments alone, and memory is given back",
      "Whatever was parsed, checked, serialized or freed before in the process, whatever results are alive and whatever unused memory holds, parsing, checking and serializing give, byte by byte, what they give in a fresh process: "
      "no type, model, option, warning or source map of one document shows in another. Results are not changed by what is done with others. Once results are freed, no memory stays in use.",
      ["histories", "fixtures"], "every fixture before each of the next six (thorough: any other); every history of up to 2 operations on 11 documents that use the same names for different things, 3 on five (thorough: 3, 4), with two places for results, four ways to write and options",
      "The tests parse each fixture in a process that goes on; nothing compares with a fresh one, and what is left over shows only after particular predecessors.",
      ["packages/drafter/src/drafter.cc", "packages/drafter/src/ConversionContext.cc", "packages/drafter/src/NamedTypesRegistry.cc", "packages/apib-parser/src/snowcrash/snowcrash.cc"],
      [("library calls", "packages/drafter/src/drafter.cc"), ("named types", "packages/drafter/src/NamedTypesRegistry.cc")],
      "Each history runs in a process of its own, three times; memory is counted in blocks, at malloc, and unused memory is filled with chosen bytes.",
      technique="exhaustive exploration of operation histories on the real code, compared with each operation in a fresh process"),
    P("C27", "The parsed API has the document's sections, with their texts, where they are",
      "Whatever sections a blueprint consists of (metadata, name, groups, resources, actions, relations, parameters, models, requests, responses, headers, bodies, schemas, descriptions), and however it spells them "
      "(bullets, styles and levels of headings, case of keywords, blank lines, spaces at the end, named, anonymous and abbreviated headers), the parse result has the elements these stand for, all of them, nothing else, "
      "in the order and under the parents the document gives them, with the same names, methods, URIs and texts, each request with each of its responses, and no annotation for a document that is in order.",
      ["shapes", "spelling", "forms", "descriptions"],
      "every legal sequence of up to 7 sections (thorough: 8), 16 documents with all features in each of 180 spellings, every pair of the 112 ways to introduce a resource, every pair of 21 blocks of text in each of five places",
      "The fixtures are some hundred documents with one spelling each; which section takes which block depends on what precedes it, and combinations of them are what users write.",
      ["packages/apib-parser/src/snowcrash", "packages/drafter/src/RefractAPI.cc"],
      [("sections", "packages/apib-parser/src/snowcrash/BlueprintParser.h"), ("resources", "packages/apib-parser/src/snowcrash/ResourceParser.h"), ("actions", "packages/apib-parser/src/snowcrash/ActionParser.h"), ("elements", "packages/drafter/src/RefractAPI.cc")],
      "An abstract model of an API (lib/api.hpp) is written as text and, independently, as the elements expected.",
      technique="exhaustive enumeration of abstract API models and their spellings, each replayed on the real code and compared with the elements of the model"),
    P("C28", "Requests, responses and models have what their sections say; slips are noted",
      "Each request, response and model has the name or status, content type, headers, parameters, body, schema and description its sections give it, in every combination of these and in each form a body can be written; "
      "header lines mean what HTTP says of names, colons, values and repeated names, whatever the case of names; a payload that refers to a model has what the model has; and exactly the slips there are "
      "(a body where the status or method allows none, no body where the headers promise one, unusable, repeated or empty headers, undefined models) are remarked on, with the right code.",
      ["headerlines", "headersections", "requests", "responses", "statuses", "names", "models"],
      "every header line of up to 5 symbols over an alphabet of 8 (thorough: 6), every section of up to 3 of 17 lines in 3 forms, every combination of sections in requests and responses with neighbours, every status of every kind of method, every name of up to 3 of 12 tokens in 4 places, every assignment of models to 3 payloads",
      "The tests have one payload of a kind each; which combinations of sections, cases and models go together is up to users.",
      ["packages/apib-parser/src/snowcrash/PayloadParser.h", "packages/apib-parser/src/snowcrash/HeadersParser.cc", "packages/apib-parser/src/snowcrash/HTTP.cc", "packages/drafter/src/RefractAPI.cc"],
      [("payloads", "packages/apib-parser/src/snowcrash/PayloadParser.h"), ("headers", "packages/apib-parser/src/snowcrash/HeadersParser.cc"), ("models", "packages/apib-parser/src/snowcrash/BlueprintParser.h"), ("messages", "packages/drafter/src/RefractAPI.cc")],
      "As C27, an abstract model written as text and as elements; RFC 7230 is the oracle for header lines.",
      technique="exhaustive enumeration of payload models and header lines, each replayed on the real code and compared with the elements and remarks of the model"),
    P("C29", "URI parameters mean what their items say and are checked against the URI",
      "Each item of a Parameters section becomes one URI variable with the name, type, use, example, default, values and description its text gives it, in either syntax and any order of its traits, the last of one name or list of values counting; "
      "a parameter that no expression of the URI template names, values that lack the example or default, a default of what is required, and traits too many are remarked on, and nothing else.",
      ["features", "pairs", "texts", "templates", "traits", "values"],
      "every combination of the features of a parameter in three places, every pair of a subset of them (thorough: of all), every text of up to 3 of 15 symbols as example, default and value (thorough: 4), every template of up to 2 expressions with every set of 5 parameters (quick: of one variable each, one or all parameters, for 2 expressions), every sequence of up to 4 traits, every list of up to 3 values after every other",
      "The tests have single parameters; the two syntaxes, traits in any order, redefinitions and templates combine freely in documents.",
      ["packages/apib-parser/src/snowcrash/ParameterParser.h", "packages/apib-parser/src/snowcrash/MSONParameterParser.h", "packages/apib-parser/src/snowcrash/ParametersParser.h", "packages/apib-parser/src/snowcrash/UriTemplateParser.cc", "packages/drafter/src/RefractAPI.cc"],
      [("parameters", "packages/apib-parser/src/snowcrash/ParameterParser.h"), ("sections", "packages/apib-parser/src/snowcrash/ParametersParser.h"), ("signatures", "packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h"), ("variables", "packages/drafter/src/RefractAPI.cc")],
      "As C27, an abstract model written as text and as elements.",
      technique="exhaustive enumeration of parameter models and URI templates, each replayed on the real code and compared with the elements and remarks of the model"),
    P("C30", "The JSON value and the JSON Schema of a type agree with it and each other",
      "For every resolved type the generated JSON value is the one it describes: its value, else its first sample, default, null if nullable, else the empty value of its kind; optional "
      "members without a value left out, the last member of a name counting, mixins in place, the first option of a One Of, the first entry of an enum. The generated JSON Schema is a well-formed draft-07 "
      "schema which has the generated value as an instance and allows exactly the JSON values the type allows, by what is fixed, fixed in type, nullable, required, optional, variable, or one of several. Generating "
      "either changes nothing.",
      ["inputs"], "every type of the given leaves, containers and attributes up to a depth, with mixins, extensions, choices and variable keys; against each schema all JSON values near the generated one",
      "The tests compare a few schemas as text; whether a schema means what the type says shows only over the values it allows, for every combination of attributes and places they are inherited from.",
      ["packages/drafter/src/refract/JsonSchema.cc", "packages/drafter/src/refract/JsonValue.cc", "packages/drafter/src/refract/JsonUtils.cc", "packages/drafter/src/refract/ElementUtils.cc"],
      [("schema", "packages/drafter/src/refract/JsonSchema.cc"), ("value", "packages/drafter/src/refract/JsonValue.cc")],
      "The schema is read back and run by a validator of draft-07 over every candidate value; its verdict is compared to that of a reference that asks the type itself. Known findings: F26 to F29 and F33. An enumeration entry that "
      "allows one value (as counted by C16) stands for that value.",
      technique="bounded exhaustive enumeration of types and JSON values on the real code against a reference model"),
    P("C31", "The data structures of a document are the elements their text describes",
      "Every named type, property, item, mixin and choice of an MSON data structure becomes one element, in the order written, with the name, key, type, nested types, values, samples, default, enumerations, attributes and "
      "description its text gives it, whether its members, samples and defaults stand on the line, below it or under headers of their own, and in whatever order the types that refer to each other are declared. A type "
      "that is not there, circular, declared twice or reserved is an error. Attributes that exclude each other, samples and defaults without a value and values enumerated twice are remarked on, and nothing else.",
      ["properties", "sections", "items", "choices", "names", "nameless", "headers", "descriptions"],
      "every property of 14 types with values, one or two of 7 attributes (thorough: any), descriptions; every sequence of up to 3 sections below it (thorough: 4); arrays and enums of every item, and pairs; every choice of up to 3 of 10 options (thorough: 4); every chain of three types in every order and use; texts below properties",
      "The tests parse single data structures; types, values, sections, attributes, nesting and the order of declarations combine freely in documents.",
      ["packages/drafter/src/RefractDataStructure.cc", "packages/drafter/src/RefractElementFactory.cc", "packages/drafter/src/NamedTypesRegistry.cc", "packages/drafter/src/MsonOneOfSectionToApie.cc", "packages/drafter/src/MsonTypeSectionToApie.cc", "packages/apib-parser/src/snowcrash/MSONUtility.h", "packages/apib-parser/src/snowcrash/MSONTypeSectionParser.h", "packages/apib-parser/src/snowcrash/MSONNamedTypeParser.h"],
      [("elements", "packages/drafter/src/RefractDataStructure.cc"), ("type definitions", "packages/apib-parser/src/snowcrash/MSONUtility.h"), ("members", "packages/apib-parser/src/snowcrash/MSONTypeSectionParser.h"), ("registration", "packages/drafter/src/NamedTypesRegistry.cc")],
      "As C27, an abstract model written as text and as elements. Left out: values that are no literals of their type (a warning and a default, by the code's own FIXME), repeated keys within one object (C13), list-form type sections directly in a named type (an error by design).",
      technique="exhaustive enumeration of data structure models, each replayed on the real code and compared with the elements and remarks of the model"),
    P("C32", "Messages get the body and schema of their data structure, and only then",
      "A request or response whose media type is of JSON and that has Attributes, or is a request of an action with Attributes, gets a message body that is their JSON value and a schema that is their JSON Schema, with all named types they use "
      "expanded wherever these are declared, each unless the message has its own or the options say to leave it out; a response gets none of its action's. Messages that stand for a model have its attributes, body and schema. A body or schema written in the "
      "document is kept as it is, with the message's media type, and Attributes are kept as written.",
      ["types", "places"],
      "11 forms of attributes over five named types that refer to each other, in all 120 orders of their declarations, before and after the resources, in requests, responses and actions; 12 media types given in three ways x attributes, body and schema of its own x request, response or model x attributes of the action and resource x options",
      "Which message gets what depends on five sections, two options and the place of the declarations together; the tests sample single cases.",
      ["packages/drafter/src/RefractAPI.cc", "packages/drafter/src/RefractDataStructure.cc", "packages/drafter/src/refract/ExpandVisitor.cc", "packages/apib-parser/src/snowcrash/PayloadParser.h", "packages/apib-parser/src/snowcrash/AttributesParser.h", "packages/apib/src/MediaType.cc"],
      [("which messages", "packages/drafter/src/RefractAPI.cc"), ("models", "packages/apib-parser/src/snowcrash/PayloadParser.h"), ("media types", "packages/apib/src/MediaType.cc")],
      "As C27. The expected bodies and schemas are made by the generators (which C30 decides) from the expanded structure of the model, not from what was parsed.",
      technique="exhaustive enumeration of API models, each replayed on the real code and compared with the elements of the model"),
    P("C33", "Remarks name each duplicate, gap and slip of the API, and nothing else",
      "A resource or group defined twice, an action whose method and URI its resource has, a relation used twice or of illegal characters, metadata given twice, a request or response of the name and media type of one before it in the same exchange "
      "(in whatever form it is written), an action or request without a response, an action after a resource that is one itself, a missing status, a body where HTTP allows none, a missing one where headers promise one, headers given twice and headers at a deprecated level each give one remark, with its code, text and "
      "the line of what it is about; nothing else gives one. Headers of actions and resources go to all messages below, before their own.",
      ["messages", "bodies", "resources", "actions", "headers", "inherited", "strays", "metadata"],
      "every sequence of up to 4 of 11 messages (thorough: 5), 5 of 6 resources and groups (thorough: 7), 3 of 24 actions, relations of up to 4 letters, 5 lines of metadata; 5 methods x 12 statuses x headers x forms of bodies; 4 sets of headers at four levels; models before and after",
      "Duplicates and gaps are relations between sections anywhere in a document; the tests have one document for some of them.",
      ["packages/apib-parser/src/snowcrash/ActionParser.h", "packages/apib-parser/src/snowcrash/PayloadParser.h", "packages/apib-parser/src/snowcrash/ResourceParser.h", "packages/apib-parser/src/snowcrash/ResourceGroupParser.h", "packages/apib-parser/src/snowcrash/BlueprintParser.h", "packages/apib-parser/src/snowcrash/HeadersParser.h", "packages/apib-parser/src/snowcrash/RelationParser.h", "packages/apib-parser/src/snowcrash/HTTP.cc"],
      [("payloads", "packages/apib-parser/src/snowcrash/ActionParser.h"), ("bodies", "packages/apib-parser/src/snowcrash/PayloadParser.h"), ("duplicates", "packages/apib-parser/src/snowcrash/ResourceGroupParser.h"), ("deprecated headers", "packages/apib-parser/src/snowcrash/HeadersParser.h")],
      "As C27. Known finding F38: headers of actions and resources are lost in messages of a model that is declared later and has a Content-Type.",
      technique="exhaustive enumeration of API models, each replayed on the real code and compared with the elements and remarks of the model"),
    P("C34", "The command line tool writes, reports and returns what the library says",
      "With any of its options, in any of their forms and orders, the tool reads its one input (a file or standard input), writes the library's output for it, in the format and with the source maps asked for, to the file or standard output asked for, "
      "prints the report of the annotations with their places as asked for, and exits with the library's code. With validation nothing is written, and no file is created or touched. Help and the version are given instead of that. "
      "Arguments that make no sense, and files that cannot be opened, read or fully written, at whatever point writing fails, end with a message or at least a failure, and never as if all were well.",
      ["options", "usage", "faults"],
      "ten documents x all options in four ways of writing them x input and output by file or stream; every sequence of up to 3 of 15 arguments (thorough: 4); every point (quick: every 7th byte) at which writing the output can fail",
      "The tests run the tool not at all here, and upstream on single documents; options, files and points of failure combine.",
      ["packages/drafter/src/main.cc", "packages/drafter/src/config.cc", "packages/drafter/src/stream.h", "packages/drafter/src/reporting.cc"],
      [("tool", "packages/drafter/src/main.cc"), ("arguments", "packages/drafter/src/config.cc"), ("files", "packages/drafter/src/stream.h"), ("report", "packages/drafter/src/reporting.cc")],
      "The tool's own main runs in a process of its own in a scratch directory for every case, with limits on file sizes and full devices as faults. The argument parser (cmdline, a submodule that is absent) is a stand-in.",
      technique="exhaustive enumeration of arguments and of the points at which a file fails, each run on the real code and compared with a model of the tool"),
    P("C35", "URI templates are remarked on exactly where they break the syntax",
      "A template of literals and expressions as RFC 6570 has them, without the letters RFC 1738 calls unsafe, is accepted in silence. Anything else gives remarks, in order: one for each stretch of text with a letter that is not allowed, and one for each variable that is none, "
      "naming the first character, percent triplet or run of dots at fault, whole, and how it would be encoded; one for each operator that is not supported; one for a bracket that is missing. One fault hides no other. A URI is taken apart into scheme, host and path.",
      ["templates", "variables", "parts", "schemes", "characters", "documents"],
      "every template of up to 4 of 18 letters (thorough: 5), and every such content of an expression; every sequence of up to 3 of 23 parts (thorough: 4); every character (quick: of those beyond U+3000, the ends of each block), in literals, variables and percent triplets; every pair of parts in four forms of a document",
      "The tests have some thirty templates; faults meet each other and the ends of expressions in any order, and characters have ranges with many ends.",
      ["packages/apib-parser/src/snowcrash/UriTemplateParser.cc", "packages/apib-parser/src/grammar/Uritemplate.h", "packages/apib-parser/src/grammar/recover.h", "packages/apib-parser/src/snowcrash/ResourceParser.h"],
      [("grammar", "packages/apib-parser/src/grammar/Uritemplate.h"), ("remarks", "packages/apib-parser/src/snowcrash/UriTemplateParser.cc"), ("recovery", "packages/apib-parser/src/grammar/recover.h")],
      "The reference is written from the RFC, by hand, without a grammar. What is said of an empty variable and of text that is no UTF-8 is left open, that something is said is not. The grammar runs on a stand-in for PEGTL.",
      technique="bounded exhaustive enumeration of inputs on the real code against a reference model"),
    P("C36", "The media type of a message is read whole and given with its bodies",
      "Every media type that has the form of RFC 6838 and RFC 2045 (type, subtype, suffix and parameters, apart by semicolons or white space, with plain or quoted values) is read into these parts, quoted pairs undone; what is read is written so that reading it gives the same again. "
      "A message given a media type by its signature or by its header has that header, and its body has that type as it is written; its schema is a JSON schema if the type is JSON, else plain text; bodies and schemas are made of attributes exactly for JSON.",
      ["texts", "endings", "parameters", "bytes", "documents"],
      "every text of up to 6 of 10 letters, and as the end of a parameter (thorough: 7); every sequence of up to 6 of 10 parameters and separators (thorough: 7); every byte and pair of bytes in 17 places, names at the limit of their length; 6 types with every pair of 12 parameters in 8 forms of a message",
      "The tests have some twenty media types, few with more than one parameter, and judge reading and writing apart.",
      ["packages/apib-parser/src/MediaTypeParser.cc", "packages/apib-parser/src/grammar/Mediatype.h", "packages/drafter/src/backend/MediaTypeS11n.cc", "packages/drafter/src/RefractAPI.cc"],
      [("grammar", "packages/apib-parser/src/grammar/Mediatype.h"), ("reading", "packages/apib-parser/src/MediaTypeParser.cc"), ("assets", "packages/drafter/src/RefractAPI.cc")],
      "What is made of a text that is no media type is left open. Signatures of messages take no backslash and no closing parenthesis. The grammar runs on a stand-in for PEGTL.",
      technique="bounded exhaustive enumeration of inputs on the real code against a reference model"),
    P("C37", "The line of a member is taken apart exactly at its delimiters",
      "The line of a property, item, type or section is a name, values after a colon, attributes in parentheses and a description after a dash, as far as its kind has them. A delimiter between two equal runs of backticks (in a name, of marks of emphasis too) or within brackets of its own is none. "
      "Values and attributes are listed whole, in order, without the space around them; a missing name or value is remarked on, and nothing else. A type is its name and those nested in it, plain, escaped, variable or links; of attributes that are no keyword the first is the type and each further one is remarked on.",
      ["lines", "quotes", "parts", "types", "values", "definitions"],
      "every line of up to 5 of 11 letters (thorough: 7), of up to 7 of 7 about quotes (thorough: 8) and of up to 5 of 14 parts (thorough: 6), as each of 6 kinds; every type of up to 2 nested types of 43 spellings (arrays: 3); every list of up to 4 of 12 attributes (thorough: 6)",
      "The tests have some forty lines; delimiters, quotes and brackets meet in every order in what users write.",
      ["packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h", "packages/apib-parser/src/snowcrash/MSONUtility.h", "packages/apib-parser/src/snowcrash/StringUtility.h", "packages/apib-parser/src/snowcrash/Signature.h"],
      [("lines", "packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h"), ("types and values", "packages/apib-parser/src/snowcrash/MSONUtility.h"), ("escapes", "packages/apib-parser/src/snowcrash/StringUtility.h")],
      "What is made of parentheses that are never closed, of emphasis around nothing and of empty entries among nested types (a fixture takes `array[]` for an array of objects), is left open.",
      technique="bounded exhaustive enumeration of inputs on the real code against a reference model"),
]
