#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

core = "Sourcecode/private/mx/core/"
impl = "Sourcecode/private/mx/impl/"
api = "Sourcecode/private/mx/api/"
inc = "Sourcecode/include/mx/api/"
ez = "Sourcecode/private/mx/ezxml/src/"

prop("C01", "Valid MusicXML survives being read and written again",
  "For every document that is valid against the MusicXML 3.0 schema, reading it into the core document model succeeds and writing it again yields a document with the same elements in the same order, the same attributes and the same text, comparing values by their schema type. The written document is itself valid against the schema and reading and writing it a second time changes nothing. Comments, formatting white space and attribute order are not significant.",
  ["inputs"], "every schema-valid partwise or timewise document: each of the ~400 element types, every optional attribute and child, every choice branch, every repetition count",
  "The import tests replay about 600 fixed files, in which many elements, attributes and combinations never occur; the unit tests stream one or two hand-written variants per element and mostly do not read them back.",
  [core + "elements", core + "Document.cpp", core + "FromXElement.cpp", core + "ElementInterface.cpp", core + "AttributesInterface.cpp"],
  [("per element toStream/fromXElementImpl", core + "elements/*.cpp"), ("importElement/importGroup/importElementSet", core + "FromXElement.h"), ("Document::fromXDoc/toXDoc", core + "Document.cpp")],
  ["DocumentManager::writeToStream", "core::Document::toXDoc"])

prop("C02", "Element setters keep every built document within the schema's bounds",
  "Whatever sequence of public calls is made on core element objects - null pointers passed to setters, optional children switched on and off, sets filled, shrunk and cleared, choices switched - an object never loses a child the schema requires, never holds more than the schema's maximum and writes exactly the active choice and the children and attributes switched on. Values that are set are what is read back and what is written, and a switched-off child or attribute is never written.",
  ["histories"], "every sequence of set/add/remove/clear/choose calls on the public interface of every core element class",
  "The unit tests build each element once or twice in a fixed order; no test passes null pointers, clears required sets or interleaves choices systematically.",
  [core + "elements", core + "ElementInterface.h"],
  [("null checks in setters, minimum-size checks in remove/clear", core + "elements/*.cpp"), ("has-flags and choice enums consulted by streamContents", core + "elements/*.cpp")],
  ["ElementInterface::toStream"])

prop("C03", "Partwise/timewise conversion keeps all music and is its own inverse",
  "Converting a score between the partwise and timewise organisation keeps the header, every part, every measure and all of their contents and attributes, each (part, measure) cell ending up under the same part id and measure position. Converting twice gives back the original document. This holds for any number of parts and measures.",
  ["inputs"], "every partwise or timewise score with rectangular part/measure structure, any header, any cell contents",
  "Two tests convert one or two small fixed scores.",
  [core + "ScoreConversions.cpp", core + "Document.cpp"],
  [("partwiseToTimewise/timewiseToPartwise", core + "ScoreConversions.cpp"), ("Document::convertContents", core + "Document.cpp")],
  ["Document::convertContents then writeToStream"])

prop("C04", "Numeric value types clamp to their range and print what they parse",
  "Every bounded integer and decimal value type holds a value within its documented range whatever number or text it is given, keeping in-range values unchanged and moving out-of-range ones to the nearest permitted value. Printing a value and parsing the result gives an equal value, and the printed decimal is the exact shortest plain notation of the value to the type's precision. Text that is not a number is reported as not parsed and leaves the value as it was.",
  ["inputs"], "all integers and decimals, all numeric strings including signs, leading zeros, huge magnitudes and non-numbers, for every numeric value type",
  "Tests check a handful of values per type.",
  [core + "Integers.h", core + "Integers.cpp", core + "Decimals.h", core + "Decimals.cpp", core + "StringUtils.h"],
  [("IntRange/PreciseDecimal clamping", core + "Integers.cpp"), ("PreciseDecimal::setValue/toString", core + "Decimals.cpp")],
  ["toString", "getValue", "parse"])

prop("C05", "Every enumeration maps one-to-one onto the schema's vocabulary",
  "For every enumerated MusicXML type the library accepts exactly the spellings the schema lists, gives each a distinct value, and prints each value with the spelling it was parsed from. Any other text is rejected or handled as the documented default, never silently taken for a different member.",
  ["inputs"], "every enumeration type, every listed spelling and arbitrary other text",
  "Tests check a few members of each enumeration, and none compares them with the schema.",
  [core + "Enums.h", core + "Enums.cpp", core + "EnumsBuiltin.cpp", core + "PlaybackSound.h"],
  [("parseX/tryParseX/toString tables", core + "Enums.cpp")],
  ["parse*/toString for each enumeration"])

prop("C06", "Compound value types agree with their schema lexical rules",
  "Colors, dates, font sizes, yes-no-numbers, number-or-normal, positive-integer-or-empty, comma-separated lists, ending numbers, tokens, names and time-only lists accept their whole schema lexical space, print a lexically valid form that denotes the same value. Dates compare and calculate as the calendar does over the years 1 to 9999. Invalid text never leaves them holding something whose printed form is invalid. Copies and moves are independent of, and equal to, their source.",
  ["inputs", "histories"], "all valid and invalid lexical forms and all sequences of parse, set, copy and move on each compound value type",
  "Tests check a handful of literals per type.",
  [core + "Color.cpp", core + "Date.cpp", core + "FontSize.cpp", core + "YesNoNumber.cpp", core + "NumberOrNormal.cpp", core + "PositiveIntegerOrEmpty.cpp", core + "CommaSeparatedText.cpp", core + "CommaSeparatedPositiveIntegers.cpp", core + "XsToken.cpp", core + "XsID.cpp"],
  [("parse/toString pairs", core + "*.cpp")], ["toString", "parse", "operator=="])

prop("C07", "Text content is carried literally whatever characters it contains",
  "Any text put into a document as element content or attribute value - mark-up characters, quotes, accented and non-Latin letters, emoji - is written so that the document stays well-formed and a reader gets exactly that text back, up to the white space rules of the field's schema type. No text can add, remove or alter other elements or attributes.",
  ["inputs"], "every string of XML-legal Unicode characters in every text-bearing field",
  "No test writes quotes, ampersands or angle brackets into attributes, and few into text.",
  [core + "XsString.cpp", core + "ElementInterface.cpp", core + "AttributesInterface.h", ez + "private/private/PugiDoc.cpp"],
  [("escaping on output", core + "XsString.cpp"), ("streamAttribute", core + "AttributesInterface.cpp")],
  ["DocumentManager::writeToStream", "getData"])

prop("C08", "The XML tree layer behaves as an ordered tree under any edits",
  "Over any history of appends, inserts, removals, renames and value changes on elements and attributes, the XML layer reports exactly the names, values, order, parents, siblings and iteration sequences of an ordered tree with those edits applied. Saving and loading such a tree, by stream or by file, reproduces it. Misuse is reported as an exception and leaves the tree unchanged.",
  ["histories"], "every sequence of public XML-layer operations, including iteration, on any tree",
  "The XML layer's own tests walk one fixed document.",
  [ez + "private/private/PugiElement.cpp", ez + "private/private/PugiDoc.cpp", ez + "private/private/PugiAttribute.cpp", ez + "private/private/PugiElementIterImpl.cpp", ez + "private/private/PugiAttributeIterImpl.cpp"],
  [("PugiElement wrappers", ez + "private/private/PugiElement.cpp")], ["XElement/XAttribute interfaces", "XDoc::saveStream"])

prop("R01", "Reading arbitrary input either succeeds or throws a standard exception",
  "Whatever bytes are supplied as a MusicXML document, reading them either produces a document or reports failure by an exception derived from std::exception; it never crashes, corrupts memory, executes undefined behaviour or fails to return. A document that was accepted can always be written, and for well-formed input what is written is well-formed. A failed read leaves the document collection usable and unchanged.",
  ["inputs", "fault_sequences"], "every byte string, truncated and mutated MusicXML, any well-formed XML, unreadable or failing streams and files",
  "The tests read well-formed files only, apart from three or four crafted failures.",
  [api + "DocumentManager.cpp", core + "FromXElement.h", core + "elements", ez + "private/private"],
  [("fromXElement error reporting", core + "ElementInterface.cpp"), ("pugixml status checked and thrown", ez + "private/private/PugiDoc.cpp")],
  ["DocumentManager::createFromStream/createFromFile"])

prop("R02", "Extracting score data from any accepted document returns or throws",
  "For every document the reader accepts, asking for its score data either returns or throws an exception derived from std::exception; it never crashes, executes undefined behaviour or fails to return. After such a call, successful or not, the document still writes the same MusicXML as before, and the returned data can be used to create a document again without a crash.",
  ["inputs"], "every accepted document, valid or not, with any combination of durations, divisions, staff, voice and part numbers",
  "Tests extract data from the corpus files only, and only from those that are known to work.",
  [impl + "ScoreReader.cpp", impl + "PartReader.cpp", impl + "MeasureReader.cpp", impl + "NoteReader.cpp", impl + "DirectionReader.cpp", api + "DocumentManager.cpp"],
  [("reader classes with MX_THROW on unsupported input", impl + "*Reader.cpp")], ["DocumentManager::getData"])

prop("A01", "Notes, rests, chords, grace notes and voices survive a write and read",
  "For every score whose voices hold non-overlapping notes, chords, rests, grace and cue notes, creating a document from it and extracting the data again gives the same notes in the same parts, measures, staves and voices, at the same tick times, with the same pitch, accidental, duration, dots, time modification, stem, notehead, beams, ties and print settings. This holds for any ticks-per-quarter value, number of staves and numbering of voices, and when the document is written to text and read in between.",
  ["inputs"], "every score data value within the documented domain of the note fields",
  "The api tests check a few dozen hand-built scores with one or two features each.",
  [impl + "MeasureWriter.cpp", impl + "NoteWriter.cpp", impl + "MeasureReader.cpp", impl + "NoteReader.cpp", impl + "NoteFunctions.cpp", impl + "Cursor.cpp", inc + "NoteData.h"],
  [("backup/forward generation", impl + "MeasureWriter.cpp"), ("cursor arithmetic", impl + "Cursor.cpp")],
  ["createFromScore, getData"])

prop("A02", "Directions survive a write and read",
  "For every score, the directions attached to a staff - dynamics and other marks, words, rehearsals, segnos, codas, wedges, ottavas, brackets, dashes, pedals, tempos, chord symbols - come back after creating a document and extracting the data with the same content, order, staff, voice, placement, tick time and formatting.",
  ["inputs"], "every combination, count and tick position of direction data the interface can express",
  "The api tests check one hand-built direction of some kinds.",
  [impl + "DirectionWriter.cpp", impl + "DirectionReader.cpp", impl + "SpannerFunctions.cpp", inc + "DirectionData.h"],
  [("DirectionWriter/DirectionReader", impl + "DirectionWriter.cpp")], ["createFromScore, getData"])

prop("A03", "Score header, layout, parts and part groups survive a write and read",
  "For every score, titles, creators, rights, encoding data, default and page layout, appearance, page texts, part names, abbreviations, instruments and sounds, MIDI settings and part groups come back unchanged after creating a document and extracting the data. Absent optional items stay absent.",
  ["inputs"], "every combination of the score-level and part-level fields of the score data",
  "The api tests set a few of these fields with fixed values; the combination of absent and present fields is not covered.",
  [impl + "ScoreWriter.cpp", impl + "ScoreReader.cpp", impl + "PartWriter.cpp", impl + "PartReader.cpp", impl + "EncodingFunctions.cpp", impl + "LayoutFunctions.cpp", impl + "PageTextFunctions.cpp"],
  [("ScoreWriter/ScoreReader and their functions", impl + "ScoreWriter.cpp")], ["createFromScore, getData"])

prop("A04", "Note attachments, curves, tuplets and lyrics survive a write and read",
  "For every score, marks (articulations, ornaments, technical indications, fermatas, dynamics on notes), slurs and ties with their start, continue and stop attributes, tuplet starts and stops, and lyrics come back on the same notes with the same kind, number, placement, position, text and style after creating a document and extracting the data.",
  ["inputs"], "every mark type and every combination and number of attachments on any note",
  "The api tests check some marks singly; combinations, numbers and positions are not covered.",
  [impl + "NotationsWriter.cpp", impl + "NoteReader.cpp", impl + "ArticulationsFunctions.cpp", impl + "OrnamentsFunctions.cpp", impl + "TechnicalFunctions.cpp", impl + "CurveFunctions.cpp", impl + "TupletReader.cpp", impl + "DynamicsReader.cpp", impl + "LyricReader.cpp"],
  [("NotationsWriter and the reader functions", impl + "NotationsWriter.cpp")], ["createFromScore, getData"])

prop("A05", "Keys, clefs, times, barlines, transposition and numbering survive",
  "For every score, key signatures (per staff, traditional and non-traditional), clefs at any tick, time signatures carried implicitly from measure to measure, barlines with repeats and endings, transpositions, measure numbers, multi-measure rests and system/page layout breaks come back in the same measure, staff and tick after creating a document and extracting the data.",
  ["inputs"], "every combination of these fields over any number of measures, parts and staves",
  "The api tests check a handful of fixed combinations.",
  [impl + "MeasureWriter.cpp", impl + "MeasureReader.cpp", impl + "PropertiesWriter.cpp", impl + "TimeReader.cpp", impl + "LayoutFunctions.cpp"],
  [("PropertiesWriter", impl + "PropertiesWriter.cpp"), ("TimeReader carry-over", impl + "TimeReader.cpp")], ["createFromScore, getData"])

prop("A06", "Extracted score data is a fixed point of writing and reading",
  "Score data extracted from any accepted MusicXML document can be saved again, and the first save settles it: creating a document from the extracted data and extracting again gives data that any further cycle leaves unchanged in every field, with the same text written each time. For the real-world documents of the corpus the first cycle loses nothing either: parts, measures, notes, attachments, directions, layout and defaults all come back equal (the order of marks on one note and of directions at one time aside). The same holds when the intermediate document goes through text, through a file or through the timewise organisation.",
  ["inputs"], "every accepted MusicXML document, corpus or generated",
  "One test compares the corpus files' rewritten form with fixed expectations for some features.",
  [impl + "ScoreReader.cpp", impl + "ScoreWriter.cpp", api + "DocumentManager.cpp"],
  [("reader and writer are inverse", impl)], ["getData, createFromScore"])

prop("A07", "Extracted times, durations and placement follow the MusicXML rules",
  "Every note, direction and attribute change in the extracted data has the tick time, duration, staff, voice and measure that the MusicXML time model gives it: durations are scaled from the divisions in force, chord members share the start of their chord, grace notes take no time, and forward and backup move the position. Ticks per quarter are such that every position and duration is exact, or rounding is only to the nearest tick.",
  ["inputs"], "every sequence of notes, chords, grace notes, forwards, backups, divisions changes and offsets in any part",
  "The tests compare a few fixed files; the interplay of divisions, chords, backups and staves is unbounded.",
  [impl + "ScoreReader.cpp", impl + "MeasureReader.cpp", impl + "Cursor.cpp", impl + "LcmGcd.h"],
  [("Cursor::convertDurationToGlobalTickScale", impl + "Cursor.cpp"), ("MeasureReader cursor advance", impl + "MeasureReader.cpp")], ["getData"])

prop("A08", "The document collection behaves as a map from ids to documents",
  "Over any history of creating, querying, writing and destroying documents, every created document gets an id never used before, each id keeps denoting the same content until destroyed whatever happens to the others, and unknown or destroyed ids give empty results without effect. Files and streams are equivalent ways to read and write. Unique ids strictly increase.",
  ["histories"], "every sequence of create/read/write/destroy calls, with valid, unknown and destroyed ids and failing creations",
  "Tests create and destroy one document at a time.",
  [api + "DocumentManager.cpp", inc + "DocumentManager.h"],
  [("id map and counter under a mutex", api + "DocumentManager.cpp")], ["DocumentManager"],
  [("myMap/myCurrentId", "live documents and the next id", api + "DocumentManager.cpp")])

prop("A09", "The document collection is safe to share between threads",
  "Threads that create, read, write and destroy their own or shared documents concurrently get the same results as in some sequential order: no id is handed out twice, no document is lost or mixed up, and no data race or deadlock occurs.",
  ["schedules"], "every interleaving of calls from several threads",
  "No existing test starts a thread.",
  [api + "DocumentManager.cpp", core + "Document.cpp"],
  [("LOCK_DOCUMENT_MANAGER", api + "DocumentManager.cpp")], ["DocumentManager"])

prop("A10", "Documents created from score data are schema-valid MusicXML",
  "Whatever score data is supplied - including values far outside the usual ranges, provided ids are distinct, names are XML names and decimals stay within fifteen digits - creating a document either throws an exception derived from std::exception or produces MusicXML that is well-formed, valid against the MusicXML 3.0 schema in its element structure and value types, readable again, and in which every measure's notes, forwards and backups keep the time position within the measure.",
  ["inputs"], "every value of every field of the score data, in any combination, with distinct ids for the parts, names where MusicXML wants names, and text of XML characters",
  "The tests never validate written output against the schema and only use ordinary values.",
  [impl + "ScoreWriter.cpp", impl + "MeasureWriter.cpp", impl + "NoteWriter.cpp", impl + "DirectionWriter.cpp", core + "elements"],
  [("typed core elements and clamping value types", core + "elements")], ["createFromScore, writeToStream"])

prop("A11", "Reading and writing have no side effects and are deterministic",
  "Extracting data from a document or writing it never changes the document, the supplied score data or any other document, and repeating either gives identical results, whatever was done to other documents in between. A timewise document stays timewise after data is extracted.",
  ["inputs", "histories"], "every document and any interleaving of reads and writes",
  "Tests perform each operation once.",
  [api + "DocumentManager.cpp", impl + "ScoreReader.cpp", impl + "ScoreWriter.cpp", core + "ScoreConversions.cpp"],
  [("convert and convert back in getData", api + "DocumentManager.cpp")], ["getData", "writeToStream"])

prop("A12", "Equality of score data sees every field and nothing else",
  "Two score data values compare equal exactly when all their fields are equal (decimals within the documented tolerance): equality is reflexive and symmetric, copies are equal, inequality is its negation, and changing any single field at any depth makes the values differ. A newly declared value has the same field values every time, whatever the memory held before.",
  ["inputs"], "every score data value and every single-field change at any depth",
  "No test compares values that differ in one field for each field.",
  [inc + "ApiEquality.h", inc + "*.h"],
  [("MXAPI_EQUALS macros", inc + "ApiEquality.h")], ["operator==, operator!="])

prop("A13", "The api vocabulary corresponds one-to-one with MusicXML's",
  "Every api enumeration value that stands for a MusicXML term (note types, accidentals, clefs, bar lines, marks, dynamics, sounds, chord kinds, noteheads, stems, groups and the like) is written as its own term and read back as itself, and every MusicXML term with an api counterpart is read as that counterpart. Classification helpers for marks agree with the element the mark is written as, and pitch helpers convert alteration to semitones and cents without loss.",
  ["inputs"], "every member of every api enumeration and every MusicXML term",
  "Tests sample a few members.",
  [impl + "Converter.cpp", api + "SoundID.cpp", api + "MarkData.cpp", api + "ChordData.cpp", api + "PitchData.cpp", api + "ClefData.cpp"],
  [("Converter EnumMap tables", impl + "Converter.cpp")], ["createFromScore, getData"])

prop("A14", "Score ordering, lookup and duration helpers agree with their definition",
  "Sorting a score orders measures' notes and directions by tick time, keeps the relative order of simultaneous items that the documented rule says to keep, loses nothing and is idempotent. Location iteration and validity, dotted and tuplet duration arithmetic, and named clef, page, and default helpers return what their definitions say for every input.",
  ["inputs"], "every score and location, every duration name with any number of dots and any ratio",
  "Tests check single examples.",
  [api + "ScoreData.cpp", api + "MeasureLocation.cpp", api + "DurationData.cpp", api + "ClefData.cpp"],
  [("ScoreData::sort", api + "ScoreData.cpp")], ["ScoreData::sort", "MeasureLocation"])

prop("A15", "Extracted score data reports what the document contains",
  "For every document whose score data can be extracted, the data has the document's titles, creators, rights, encoding, credits, part groups, part names, instruments and parts, in the order of its part list, each with its measures in order, and each measure reports exactly the notes (kind, pitch, display position, chord membership, written type, dots, ties, stem, ratio, accidental and its decorations, staff), beams, marks by family, curves, tuplets, directions (words, rehearsal marks, segno, coda, wedges, octave shifts, brackets, pedals, tempos, dynamics), chord symbols, keys, clefs, time signature, bar lines with endings and repeats, number, width and implicit flag that are present in the document: nothing is lost, invented, doubled or attributed to another staff, measure or part.",
  ["inputs"], "every accepted document: partwise or timewise, made by any program, with any combination of notes, notations, directions, attributes and bar lines",
  "Extraction tests compare selected fields of fixed files, and the round-trip tests only see documents which the library wrote itself.",
  [impl + "ScoreReader.cpp", impl + "PartReader.cpp", impl + "MeasureReader.cpp", impl + "NoteReader.cpp", impl + "NoteFunctions.cpp", impl + "NotationsWriter.cpp", impl + "DirectionReader.cpp"],
  [("element dispatch of a measure", impl + "MeasureReader.cpp"), ("notations by type", impl + "NoteFunctions.cpp"), ("direction types", impl + "DirectionReader.cpp")],
  ["DocumentManager::getData"])

prop("A16", "Created documents denote the score data they were made from",
  "The document created from score data, read by any other MusicXML reader, says what the data says: the same titles, creators, encoding, credits, part groups, names, instruments and parts in the same order, and in each measure exactly the notes, beams, marks, curves, tuplets, directions, chord symbols, keys, clefs, time signature, bar lines and measure attributes of the data, on the same staff. The library's own reader is not needed to understand what it wrote.",
  ["inputs"], "every score within the documented value ranges, written partwise or timewise",
  "The round-trip tests use the library's own reader, so a writer and a reader which agree on a wrong meaning pass; no test looks at the written XML for generated scores.",
  [impl + "ScoreWriter.cpp", impl + "PartWriter.cpp", impl + "MeasureWriter.cpp", impl + "NoteWriter.cpp", impl + "NotationsWriter.cpp", impl + "DirectionWriter.cpp", impl + "PropertiesWriter.cpp"],
  [("per measure cursor and element writers", impl + "MeasureWriter.cpp"), ("note construction", impl + "NoteWriter.cpp"), ("direction types", impl + "DirectionWriter.cpp")],
  ["DocumentManager::createFromScore then writeToStream"])

prop("R03", "Work on documents leaves no memory behind",
  "Any sequence of reading, writing, extracting, creating and destroying documents, whether the calls succeed or throw, leaves no more memory in use than there was before once the documents are destroyed: repeating the same work any number of times does not let the program's live memory grow.",
  ["histories", "fault_sequences"], "every document, score, damaged input and failing stream, repeated any number of times",
  "No test looks at memory; the tests' process ends soon after.",
  [api + "DocumentManager.cpp", core + "Document.cpp", core + "elements", ez + "private/private/PugiDoc.cpp"],
  [("documents are owned by the manager's map", api + "DocumentManager.cpp"), ("elements own their children by shared_ptr", core + "elements")],
  ["DocumentManager::destroyDocument"])

prop("R04", "Documents do not depend on the process's locale",
  "Whatever locale the program has made its global one, the same input is accepted or refused, the same score data is extracted and the same MusicXML is written as under the classic locale: numbers keep their decimal point and have no digit grouping.",
  ["inputs", "configurations"], "every document and score under every global C++ locale with its own decimal point and digit grouping",
  "The tests run under the classic locale only.",
  [core + "Integers.cpp", core + "Decimals.cpp", core + "Date.cpp", core + "CommaSeparatedPositiveIntegers.cpp", impl + "PartWriter.cpp", impl + "LayoutFunctions.cpp", impl + "DirectionWriter.cpp"],
  [("number output by streams", core + "Decimals.cpp")], ["DocumentManager::createFromStream/writeToStream/getData"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
