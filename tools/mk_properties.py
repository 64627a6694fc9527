#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json
DOCS="src/document/*.rs"; HDR="src/header/*.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,obs):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
T170="The 170 scenario tests generate a few random samples of 20 of the 25 types and compare only part of each message"
p("C01","A message written as XML and read back is the same message",
 "For every supported message type and every message value, writing the message as XML and reading that XML back gives a message equal to the original: header, namespace declarations, every field, every list item and its position, every amount and currency. Only white space around a text value is insignificant, and a mandatory list has at least one item.",
 ["inputs"],"all 25 message types, all optional-field combinations, list lengths and texts (including markup characters and text that looks like the library's own tags)",
 T170+"; a lost field, list item or badly escaped text only shows for the field, type or text concerned.",
 ["src/mx_envelope.rs",DOCS,HDR],[("typed serde (de)serialisation of each struct",DOCS),("envelope writer and reader","src/mx_envelope.rs to_xml/from_xml"),("root renaming on the serialised text","src/mx_envelope.rs serialize_with_rename")],["MxMessage::to_xml","MxMessage::from_xml"])
p("C02","Written XML is the ISO 20022 document of the message, nothing else",
 "The XML written for a message is well-formed and consists of an envelope holding the header and then a document whose root element is the registered one for its type. Below these it contains exactly the fields that are present, each once per occurrence, under its ISO 20022 element or attribute name, in schema order, with exactly its value as text.",
 ["inputs"],"all 25 message types, the specialised variants and headers; every field of every type present or absent, 0-3 occurrences of lists, all texts of the alphabet",
 "Tests read the written XML back with the same code, so a misnamed, misplaced or extra element that both sides agree on is invisible to them.",
 ["src/mx_envelope.rs",DOCS,HDR],[("serde rename attributes and field order",DOCS),("envelope assembly","src/mx_envelope.rs to_xml"),("root renaming","src/mx_envelope.rs serialize_with_rename")],["MxMessage::to_xml"])
p("C03","Reading XML yields exactly the values the XML carries",
 "Reading a schema-conforming XML message gives a message that holds exactly the header and document values written in it: nothing dropped, defaulted, merged, reordered or swapped. Equivalent spellings of the same XML - indentation, entities and character references, CDATA sections, quote style, namespace declarations and other attributes on the envelope, XML declaration - give the same message.",
 ["inputs"],"all 25 message types, variants and headers; every field path of every type; every lexical style of the list in DESIGN.md",
 "The tests only read XML produced by this library, in one spelling, with the fields the scenarios happen to contain.",
 ["src/mx_envelope.rs",DOCS,HDR],[("section extraction by tag search","src/mx_envelope.rs extract_section"),("typed XML deserialisation",DOCS)],["MxMessage::from_xml"])
p("C04","JSON of a message carries exactly its data, and reads back equal",
 "The JSON form of a message contains exactly the fields present in it, under their ISO 20022 names, numbers as numbers and lists as arrays, and omits absent optional fields. Reading that JSON back, or any JSON with the same content, gives an equal message.",
 ["inputs"],"all 25 message types, variants and headers; every field path; list lengths 0-3; the text and number alphabets",
 "The tests compare only values the scenarios contain, and through the same serialiser on both sides.",
 ["src/mx_envelope.rs",DOCS,HDR],[("serde derive with skip_serializing_if",DOCS),("to_json/from_json","src/mx_envelope.rs")],["MxMessage::to_json","MxMessage::from_json"])
p("C05","The XML and JSON forms of a message are interchangeable",
 "A message read from XML and a message read from the JSON with the same content are equal, and converting XML to JSON and back to XML, or JSON to XML and back to JSON, loses and adds nothing. This holds through every conversion path the library offers, including the direct XML-to-JSON conversion of a document.",
 ["inputs"],"25 message types x all conversion chains of length up to 4 between value, XML and JSON, over the field paths and texts",
 "Tests walk one chain (JSON to XML to JSON) over a few samples and check only the document part.",
 ["src/mx_envelope.rs","src/xml.rs",DOCS],[("conversions","src/mx_envelope.rs, src/xml.rs xml_to_json_via_document")],["MxMessage","xml_to_json_via_document"])
p("C06","Length limits are enforced exactly, in characters, on every field",
 "Validation reports a text field as too short or too long exactly when its number of characters (not bytes) is below the minimum or above the maximum defined for that field. This holds at every place the field can occur, for every occurrence in a list, in documents and headers.",
 ["inputs"],"every length-limited field of all 62 schema modules at every path; lengths min-1, min, max, max+1 and multi-byte characters; every list position",
 "No existing test runs validation on any document type; unit tests cover helpers on a few strings.",
 ["src/validation.rs",DOCS,HDR],[("length helper","src/validation.rs validate_length"),("per-field calls",DOCS)],["Validate::validate"])
p("C07","Pattern constraints are enforced exactly, on the whole value",
 "Validation reports a pattern error on a text field exactly when its value, apart from surrounding white space, is not in the language of the pattern defined for that field, taken over the whole value. This holds at every place the field can occur and for every occurrence in a list, in documents and headers.",
 ["inputs"],"every patterned field of all 62 schema modules at every path; words from a transition cover of the minimal automaton of each pattern, accepted and rejected",
 "No existing test validates a patterned document field; unit tests match one simple pattern.",
 ["src/validation.rs",DOCS,HDR],[("pattern helper","src/validation.rs validate_pattern"),("per-field calls with pattern literals",DOCS)],["Validate::validate"])
p("C08","Validation reports every broken constraint, once, at the right place",
 "In collecting mode one validation run over a message with any combination of broken constraints reports each broken constraint exactly once, with the documented error code for its kind, the ISO 20022 name of the field and the dotted path from the starting point to it, and reports nothing else. A message that breaks no constraint gets no error.",
 ["inputs"],"every constrained field at every path of all 62 modules, alone, all together, and pairs; several list items wrong at once; any starting path",
 "Existing tests never check the error list of a document; the guarantee is over every combination of failing fields.",
 ["src/validation.rs","src/parse_result.rs",DOCS,HDR],[("child_path","src/validation.rs"),("recursive validate implementations",DOCS),("ErrorCollector","src/parse_result.rs")],["Validate::validate","ErrorCollector::errors"])
p("C09","Each validation mode reports exactly the errors it promises",
 "Fail-fast validation reports exactly one error, the first one of collecting mode, whenever collecting mode reports any, and none otherwise, and marks it critical. Lenient validation reports exactly the collecting-mode errors that lie outside optional structured parts, and the default mode reports all of them; no other combination of settings changes which messages are valid.",
 ["inputs","configurations"],"all 8 combinations of the three settings x the preset modes x messages with 0, 1, 2 and all constraints broken, in every module",
 "Tests build configurations but never validate a document under them.",
 ["src/validation.rs","src/parse_result.rs",DOCS],[("ParserConfig presets","src/parse_result.rs"),("fail_fast handling in helpers","src/validation.rs"),("optional-part guards",DOCS)],["Validate::validate"])
p("C10","Code fields accept and write exactly their ISO code list",
 "A field restricted to a list of codes accepts each code of its list and no other text (no other case, no prefix, no extension, no empty value) whether read from XML or JSON. It writes the code unchanged.",
 ["inputs"],"every code-list field path of all modules x every code of its list, plus neighbours of the codes (case, prefix, suffix, other lists' codes, empty)",
 "The scenarios use a handful of codes; a renamed, swapped or missing code only shows for that code of that type.",
 [DOCS,HDR],[("enums with serde renames",DOCS)],["MxMessage::from_xml","MxMessage::from_json","MxMessage::to_xml"])
p("C11","Mandatory and single-occurrence rules are enforced when reading",
 "Reading XML or JSON in which a mandatory element or attribute is missing, or a non-repeating one occurs twice in XML, fails with an error, and reading one in which only optional ones are missing succeeds and leaves exactly these absent. Repeating elements keep all occurrences in order.",
 ["inputs"],"for every struct type of all modules: full message minus each single field; minimal plus each optional field; each element duplicated; list lengths 0-3",
 "The scenarios contain every mandatory field; removing each one in turn for each of 62 modules is out of reach of sampled tests.",
 [DOCS,HDR],[("Option/Vec field types, serde default",DOCS)],["MxMessage::from_xml","MxMessage::from_json"])
p("C12","Amounts, rates, numbers and flags keep their exact value",
 "A numeric field keeps its exact double-precision value and a flag keeps its truth value through reading and writing in both formats, an amount keeps its currency, and any decimal or scientific spelling of the same number reads as the same value. Text that is not a number or a flag is rejected rather than replaced.",
 ["inputs"],"every numeric and boolean field path of all modules x the number alphabet (magnitudes 1e-300..1e300, fractions, 17-digit values, spellings), all short texts over the characters of numbers, currencies and non-numbers",
 "Scenario amounts have few digits; precision loss, sign or exponent handling and currency mix-ups need values no scenario contains.",
 [DOCS],[("f64/bool fields and amount structs",DOCS)],["MxMessage::from_xml","MxMessage::to_xml","MxMessage::from_json","MxMessage::to_json"])
p("C13","Message type tables agree with each other and with ISO 20022",
 "For each of the 25 supported types the short form, full form, root element, type name and namespace lookups agree with one another and with the ISO 20022 identifiers, accept short and full form alike, and are inverse to each other. No lookup answers for an identifier that is not one of these, and normalising or looking up a namespace for an unknown identifier keeps it unchanged.",
 ["inputs"],"25 types x every lookup x every identifier form, and all single-edit neighbours of the identifiers",
 "Unit tests look up three or four types; a wrong entry or a loose match for another type goes unnoticed.",
 ["src/message_registry.rs","src/mx_envelope.rs","src/plugin/common.rs"],[("MESSAGE_REGISTRY and lookups","src/message_registry.rs"),("document namespace","src/mx_envelope.rs Document::namespace")],["message_registry","Document::namespace","MxMessage::namespace"])
p("C14","The document type follows the root element, and nothing else",
 "Reading a message gives the document type registered for the root element inside the document, whatever the header claims and whatever the texts, comments or attributes contain; an unregistered root is an error. The type reported without a full read is the header's message identifier, in short form when registered.",
 ["inputs"],"25 x 25 combinations of header identifier and document type; unregistered, misspelt and prefixed roots; roots of every type read through every entry point",
 "The scenarios only contain matching header and document; unit tests detect three types.",
 ["src/mx_envelope.rs","src/message_registry.rs","src/plugin/common.rs","src/xml.rs"],[("detect_document_type and dispatch","src/mx_envelope.rs"),("peek functions","src/mx_envelope.rs"),("extract_message_type*","src/plugin/common.rs")],["MxMessage::from_xml","peek_message_type_from_xml","peek_message_type_from_json","Document"])
p("C15","Truncated or damaged input is an error, never a crash or another message",
 "Any truncation of a message and any removal, duplication or swap of its markup tokens is either rejected with an error or read as a message that the damaged text really states; nothing makes the library panic or loop. A truncated XML or JSON message is never accepted as a message with different content.",
 ["inputs","fault_sequences"],"every prefix (every byte cut) of one message per type in XML and JSON; every single token deleted, doubled, or swapped with its neighbour; every public reading entry point; a library of degenerate inputs",
 "Tests feed no damaged input at all.",
 ["src/mx_envelope.rs","src/xml.rs","src/plugin/common.rs","src/plugin/parse.rs","src/plugin/validate.rs"],[("section extraction","src/mx_envelope.rs, src/xml.rs"),("type detection","src/mx_envelope.rs, src/plugin/common.rs")],["MxMessage::from_xml","MxMessage::from_json","xml module","plugin steps"])
p("C16","Workflow steps change only what they promise and report it truthfully",
 "A parse, validate, publish or generate step reads its source, writes its result under the target and the documented metadata, and leaves all other data, metadata and the payload untouched. The change it reports names the target with the true previous and new values; a step that fails reports an error and leaves the message unchanged.",
 ["histories","configurations","inputs"],"all sequences up to depth 3-4 of the four steps over two fields and the payload, valid, invalid and missing content, from empty and non-empty messages; all configuration defects; field names that look like paths",
 "The scenarios run one fixed sequence with distinct fields and never inspect the reported changes or a failing step.",
 ["src/plugin/parse.rs","src/plugin/validate.rs","src/plugin/publish.rs","src/plugin/generate.rs","src/plugin/common.rs"],[("execute of each step","src/plugin/*.rs")],["AsyncFunctionHandler::execute","Message data/metadata/payload"])
p("C17","Publishing then parsing in a workflow returns the original message",
 "For every message in JSON form, the publish step followed by the parse step yields JSON with the same content, with the message type recorded for the result, and publishing equals writing the message as XML directly. The parse step gives the same result whether the XML is a plain field, inside a generated-message object, or the payload.",
 ["inputs","histories"],"25 types x field paths x texts x namespace declarations x the three content sources, with and without header",
 "The scenarios compare one sample per scenario and strip most of the structure before comparing.",
 ["src/plugin/publish.rs","src/plugin/parse.rs","src/plugin/common.rs","src/mx_envelope.rs"],[("json_to_mx","src/plugin/publish.rs"),("parse_xml_to_json","src/plugin/parse.rs"),("extract_mx_content","src/plugin/common.rs")],["publish_mx","parse_mx"])
p("C18","The validate step's verdict agrees with reading and field validation",
 "The validate step reports a message as valid exactly when it can be read as its message type and breaks none of its field constraints, and otherwise reports it invalid with at least one error; the verdict, the error list and the recorded result never contradict one another. Validating does not depend on how the content is supplied.",
 ["inputs","configurations"],"25 types x {valid, unreadable in each single way, constraint broken at each field} x content sources, with and without header",
 "The scenarios only ever feed it messages the library has just written.",
 ["src/plugin/validate.rs","src/xml.rs"],[("validate_xml","src/plugin/validate.rs"),("from_mx_xml_envelope_str","src/xml.rs")],["validate_mx"])
p("C19","Documents without a header are handled the same as with one",
 "For every supported type, a document without envelope and header is parsed, validated and published with exactly the same document content, type and verdict as the same document inside an envelope. Where a full message is required it is refused with an error.",
 ["inputs"],"25 types x field paths x spellings of the document tag (attributes, namespace, white space)",
 "No scenario contains a document without header.",
 ["src/xml.rs","src/plugin/common.rs","src/plugin/parse.rs","src/plugin/validate.rs","src/plugin/publish.rs"],[("xml_to_json_via_document","src/xml.rs"),("extract_message_type_from_xml","src/plugin/common.rs")],["xml_to_json_via_document","from_mx_xml_envelope_str","plugin steps"])
p("C20","Results depend only on the input, not on history, repetition or threads",
 "Reading, writing, validating and converting the same input gives the same result every time, whatever was processed before, in whatever order, and when other threads work on other messages at the same time; these operations never modify the message they are given.",
 ["histories","schedules","inputs"],"all ordered pairs (and triples over a reduced alphabet) of operations from all types in one process; long repetitions and very large messages in between; the same operations on several threads",
 "Tests never repeat an operation or compare results across orders.",
 ["src/validation.rs","src/mx_envelope.rs","src/plugin/*.rs"],[("stateless functions; no shared mutable state","src/**")],["whole public API"])
p("C21","Error collection keeps every error, in order, and never forgets a critical one",
 "After any sequence of recorded errors a collector holds exactly these errors in order, counts them, and is critical exactly when one of them was critical. A parse result answers success, failure, value, errors and conversion consistently with the case it is, and the check helpers report, add and return consistently with their verdict.",
 ["histories","inputs","configurations"],"all sequences of collector and helper operations up to length 6; all cases of the result type with 0-3 errors; all helper arguments of a small domain",
 "Unit tests run one sequence each.",
 ["src/parse_result.rs","src/validation.rs","src/error.rs"],[("ErrorCollector, ParseResult, ParserConfig","src/parse_result.rs"),("helpers","src/validation.rs")],["ErrorCollector","ParseResult","helpers"])
p("C22","The generate step delivers exactly the data its scenario describes",
 "The generate step stores under its target exactly the structure and constant values of the scenario in the payload, with variables resolved consistently, so that a scenario made of constants yields precisely that message and flows through publish, validate and parse unchanged. An unusable scenario is an error that changes nothing.",
 ["inputs","histories"],"constant and variable scenarios for all 25 types at every field path; malformed scenarios; generate followed by every other step",
 "The scenario tests generate random values and cannot know what the result should be.",
 ["src/plugin/generate.rs"],[("DataGenerator use","src/plugin/generate.rs")],["generate_mx"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
