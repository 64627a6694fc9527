#!/usr/bin/env python3
"""Writes /verif/known_findings.json (the committed list of defects found in /repo)."""
import json, subprocess
F=[]
def open_(prop, what, keys): F.append(dict(property=prop,status="open",what=what,keys=keys))
def fixed(prop, commit, what): F.append(dict(property=prop,status="fixed",what=f"fixed: property={prop} {commit} {what}",keys=[]))

open_("C12","XML numbers spelled as not-a-number, infinity or beyond the double range are accepted (JSON then shows null)",
 [f'XML accepts "{x}" as a number' for x in ["NaN","nan","-NaN","inf","-inf","+inf","INF","-INF","infinity","Infinity","-Infinity","iNf","1e309","-1e309","1e400","9e99999"]])
open_("C12","JSON numbers with 16 or more digits or a large exponent are read one unit in the last place off (serde_json without float_roundtrip)",
 [f"JSON reads {x} differently" for x in ["0.9999999999999999","9007199254740991.0","123456789987654.33","1.2345678901234567e17","5e90","5E90","9e91","9E91"]])
fixed("C07","bcd5730","a value was accepted when any part of it matched the pattern ($ and ^ were missing)")
fixed("C09","c98a55e","fail-fast validation reported further errors after the first one")
fixed("C15","61e8124","panic on XML that ends right after the opening angle bracket")
fixed("C15","3183fc1","panic when the Document end tag precedes its start tag")
fixed("C19","a8e80c3","Document-only XML was always reported invalid by validate_mx")
fixed("C05","70ce66f","from_mx_xml_envelope_str could not read an envelope")
fixed("C19","e81b110","Document-only XML of five registered types could not be parsed")
fixed("C16","d40b2f4","changes of parse_mx and validate_mx reported a wrong old value")
fixed("C16","63b4387","panic when message data or metadata is not an object")
fixed("C01","141334a","camt.052/053/054 repeated code elements could not be read back from XML")
fixed("C01","0e73e38","to_xml dropped the envelope namespaces of the message")
fixed("C17","d781a47","parse_mx replaced literal backslash-n inside texts")
fixed("C19","4df884f","publish_mx refused Document-only JSON although documented")
fixed("C14","aaca1e2","header, document and root were located by text search, misled by comments, CDATA, attributes and prefixes")
fixed("C14","efd6ca1","peek_message_type_from_xml was misled by comments, CDATA and white space; it matched MsgDefIdr by a text pattern")
fixed("C15","992718b","stray text between elements was read as an additional item of a neighbouring list")
fixed("C15","8c2cf6f","from_mx_xml_to_json overflowed the stack on deeply nested XML")
fixed("C16","4143aaf","a payload that is not a text was read through its JSON form, with mangled texts")
fixed("C18","00f80d2","validate_mx refused escaped line breaks which parse_mx accepts")
fixed("C19","f4e9736","a camt.105 document was read as camt.106 on request, and an enveloped message accepted as any type")
fixed("C14","ae54fbe","a document with an unregistered root was converted and accepted when its type was given")
SHORTS="admi.024 camt.025 camt.029 camt.052 camt.053 camt.054 camt.055 camt.056 camt.057 camt.058 camt.060 camt.105 camt.106 camt.107 camt.108 camt.109 pacs.002 pacs.003 pacs.004 pacs.008 pacs.009 pacs.010 pain.001 pain.002 pain.008".split()
open_("C18","the validation step never runs the typed field validation (Validate trait), so broken field constraints are reported valid",
 [f"{s} {f}: field constraint broken, reported valid" for s in SHORTS for f in ("message","document")])
json.dump(dict(findings=F),open('/verif/known_findings.json','w'),indent=1,ensure_ascii=False); open('/verif/known_findings.json','a').write("\n")
