"""The properties: text for properties.jsonl and MANIFEST.json."""

PROPS = [
 {"id": "C01", "title": "Parsing never panics",
  "statement": "No text, however malformed, makes a public parsing function panic: parsing, loose parsing, iterating, converting text to a card or to any value type, and the public date, time and number helpers return a value or an error.",
  "quant": "all input texts and all public functions that turn text into values, in every feature configuration",
  "why": "Tests parse a few hundred fixed texts; a panic needs one unusual text (a multi-byte character at a cut, a missing part, a truncated card).",
  "files": ["src/parser.rs", "src/helper.rs", "src/iter.rs", "src/property.rs", "src/parameter.rs", "src/uri.rs", "src/date_time.rs", "src/lib.rs"],
  "mech": [("slice bounds taken from the lexer's spans and from find", "src/parser.rs"), ("checked indexing in partial date and time parsing", "src/helper.rs"), ("resume offset of the iterator", "src/iter.rs")],
  "technique": "abstract interpretation of MIR: panic-freedom obligations",
  "note": "Every operation that may panic on any path of the analysed functions is proved unreachable or safe for all inputs; allocation failure, stack exhaustion inside dependencies and panics inside dependencies on their documented non-panicking calls are excluded."},
 {"id": "C02", "title": "Building, validating and writing cards never panics",
  "statement": "No value makes a public function other than the parsers panic: constructors, the builder, conversions, accessors, validation and writing any property, parameter or card as text.",
  "quant": "all values of all public types and all public functions that are not parsers, in every feature configuration",
  "why": "Tests write a handful of cards; empty lists, empty strings and rare variants are not all combined.",
  "files": ["src/vcard.rs", "src/builder.rs", "src/property.rs", "src/parameter.rs", "src/helper.rs", "src/date_time.rs", "src/lib.rs"],
  "mech": [("separators written between list items", "src/helper.rs, src/parameter.rs, src/property.rs"), ("line folding", "src/vcard.rs")],
  "technique": "abstract interpretation of MIR: panic-freedom obligations",
  "note": "Every operation that may panic in any public non-parsing function is discharged for arbitrary receivers and arguments; formatting errors returned by Display are not panics of this crate."},
 {"id": "C03", "title": "Every public call terminates",
  "statement": "Every public function returns for every input: each loop consumes a finite iterator, tokens of the input or a bounded counter, and no function recurses.",
  "quant": "all inputs and all public functions",
  "why": "A loop that stops advancing needs a particular malformed text; tests cannot try them all and would only hang.",
  "files": ["src/parser.rs", "src/iter.rs", "src/helper.rs", "src/vcard.rs", "src/parameter.rs", "src/property.rs"],
  "mech": [("token loops", "src/parser.rs"), ("list loops", "src/helper.rs"), ("error recovery", "src/parser.rs, src/iter.rs")],
  "technique": "loop progress analysis on MIR",
  "note": "For every back edge of every reachable loop an iterator, the lexer or a bounded counter is shown to advance; library calls are trusted to return."},
 {"id": "C04", "title": "Only completely framed cards are returned",
  "statement": "Every card any parsing entry point returns was read from a text with BEGIN:VCARD, a VERSION line, its property lines and an END:VCARD line, in this order; a text that ends before END:VCARD never yields a card.",
  "quant": "all input texts; strict, loose, iterator and conversion entry points",
  "why": "Tests cover a few missing tokens; truncation can occur after any line and in any mode.",
  "files": ["src/parser.rs", "src/iter.rs", "src/vcard.rs", "src/lib.rs"],
  "mech": [("token assertions at the start of a card", "src/parser.rs parse_one"), ("end of the property loop", "src/parser.rs parse_properties")],
  "technique": "typestate analysis over the token stream",
  "note": "The token automaton is decided on every path through the entry points; that a token kind stands for its text is the lexer's definition."},
 {"id": "C05", "title": "Every card returned by parsing is valid",
  "statement": "Every card returned by any parsing entry point, strict or loose, has at least one formatted name, and has members only if its kind is group; the public validation succeeds exactly for such cards.",
  "quant": "all input texts, all entry points, and for validation all cards",
  "why": "Tests check one missing FN and one MEMBER case on one entry point each.",
  "files": ["src/parser.rs", "src/iter.rs", "src/vcard.rs"],
  "mech": [("validation of every parsed card", "src/parser.rs parse_one"), ("validation", "src/vcard.rs validate")],
  "technique": "must-pass-through dataflow on values; path facts",
  "note": "Every delivery point is dominated by a successful validation of the same value; validation is interpreted exhaustively on a symbolic card."},
 {"id": "C06", "title": "Repeated properties: single-valued ones are rejected, the others all kept",
  "statement": "While a card is read, a property the RFC allows at most once (KIND, N, BDAY, ANNIVERSARY, GENDER, PRODID, REV, UID) never replaces an earlier occurrence, and every occurrence of any other property is appended after the earlier ones, so no value read before is lost or reordered.",
  "quant": "all input texts and all sequences of property lines; all entry points",
  "why": "Tests repeat two or three properties; an overwrite needs a repetition of one particular property in a particular mode.",
  "files": ["src/parser.rs", "src/vcard.rs"],
  "mech": [("property dispatch with the only-once checks", "src/parser.rs parse_property_by_name")],
  "technique": "abstract interpretation: every store to the card with its path facts",
  "note": "Every store to every card field below the entry points is enumerated and decided."},
 {"id": "C07", "title": "Strict parsing drops no line",
  "statement": "In strict mode (parse, conversion from text) every line between VERSION and END:VCARD of a returned card has contributed exactly one property to it; a line that cannot be stored makes the card an error. In every mode a property is stored only when its line was read to its end, and no line is stored twice.",
  "quant": "all input texts; every line of every returned card",
  "why": "Whether a line is dropped silently depends on its name, parameters and value; tests look at the fields they expect, not at lines that vanish.",
  "files": ["src/parser.rs", "src/iter.rs", "src/vcard.rs"],
  "mech": [("line loop", "src/parser.rs parse_properties"), ("dispatch", "src/parser.rs parse_property_by_name")],
  "technique": "typestate analysis: one store per line",
  "note": "Decided on every path between two line starts."},
 {"id": "C08", "title": "Loose parsing keeps the good lines of a broken card",
  "statement": "Loose parsing fails only because of framing (missing BEGIN, VERSION or END) or an invalid card; a line it cannot understand is skipped as a whole and parsing resumes at the next line, so no line that can be stored is lost and no part of a broken line is read as another one.",
  "quant": "all input texts read by parse_loose",
  "why": "Which lines are lost after a broken one depends on where inside the line the error is found; tests break a few lines in one place.",
  "files": ["src/parser.rs", "src/lib.rs"],
  "mech": [("error recovery in the line loop", "src/parser.rs parse_properties, skip_line")],
  "technique": "typestate analysis of the token stream: error origins and resynchronisation",
  "note": "Every error result of parse_loose is traced to where it was made, and every line is shown to be stored or to have had a failing operation."},
 {"id": "C09", "title": "Each property is read into its field and written under its name",
  "statement": "A line is stored in the field of the card its name stands for, ignoring the case of the name and any group, and X- names in the extensions; writing a card gives exactly one line per stored property, as [group.]NAME[parameters]:value, with the name of its field, in order.",
  "quant": "all input texts; all cards, per field and kind of value",
  "why": "There are 36 fields with several kinds of values, with and without group and parameters; tests write a few of the combinations.",
  "files": ["src/parser.rs", "src/vcard.rs", "src/property.rs", "src/name.rs"],
  "mech": [("name dispatch", "src/parser.rs parse_property_by_name"), ("content lines", "src/vcard.rs Display")],
  "technique": "abstract interpretation: path facts at stores; exact symbolic output",
  "note": "Compared with the RFC's table in rules/rfc.py; lists are written with two elements."},
 {"id": "C10", "title": "Groups and parameters stay with their property",
  "statement": "A property read from a line carries exactly the group written before its name (none if there is no dot) and has parameters exactly if a semicolon follows its name; the group() and parameters() accessors of every property type return what the property holds.",
  "quant": "all input texts; all property types and values",
  "why": "Each of the 36 branches passes group and parameters on by itself; tests check a few of them.",
  "files": ["src/parser.rs", "src/property.rs"],
  "mech": [("property construction in every branch", "src/parser.rs parse_property_by_name, parse_extension_property_by_name"), ("Property implementations", "src/property.rs")],
  "technique": "abstract interpretation: provenance of stored fields",
  "note": "Every store to the card is decided; accessors are interpreted on every property type."},
 {"id": "C11", "title": "Each parameter is read into its field and written under its key",
  "statement": "A parameter is stored in the field its key stands for, ignoring case, and X- and ENCODING parameters with their key in the extensions; in strict mode no parameter that was read is dropped, repeated TYPE and extension parameters are added to the earlier ones; writing parameters gives one ;KEY=value part per parameter with all its values in order.",
  "quant": "all input texts; all parameter values, per field and all together",
  "why": "Parameters combine freely; tests use a few of them one at a time.",
  "files": ["src/parser.rs", "src/parameter.rs", "src/name.rs"],
  "mech": [("key dispatch", "src/parser.rs parse_parameters"), ("Display", "src/parameter.rs")],
  "technique": "abstract interpretation: path facts at stores; exact symbolic output",
  "note": "Compared with the RFC's table in rules/rfc.py; lists are written with one to three elements."},
 {"id": "C12", "title": "Parameters are accepted only where the RFC allows them",
  "statement": "In strict mode TYPE is accepted on exactly the properties RFC 6350 allows it on, with the telephone types only on TEL and the related types only on RELATED; LABEL is accepted only on ADR, a PREF is stored only if it is a number from 1 to 100; a PID or CLIENTPIDMAP source that is stored was read from digits of the input.",
  "quant": "all input texts; every property name and parameter key",
  "why": "There are 36 names and a dozen parameters; tests try a few of the pairs, and numbers at few values.",
  "files": ["src/parser.rs", "src/parameter.rs", "src/property.rs"],
  "mech": [("parameter checks", "src/parser.rs parse_parameters, parse_type_parameter"), ("pref range", "src/parser.rs"), ("client pid map", "src/property.rs FromStr")],
  "technique": "abstract interpretation: path facts at stores and at errors",
  "note": "Every store to a parameter field is decided with the facts about name, key and value on its paths; acceptance is decided by reachability of the store per allowed name."},
 {"id": "C13", "title": "No control character is accepted",
  "statement": "Strict parsing stores no value that contains a control character other than tab: a raw control character in a property or parameter value is an error, in every property and every kind of value.",
  "quant": "all input texts; every property and parameter value of every returned card",
  "why": "There are 33 control characters and dozens of places a value is read; tests put one of them in one place.",
  "files": ["src/parser.rs"],
  "mech": [("control tokens in values", "src/parser.rs parse_property_value, parse_parameters")],
  "technique": "typestate analysis of the token stream; lexer languages",
  "note": "The lexer's automaton is built from the token definitions; every token loop that reads a value is shown to reject the control token."},
 {"id": "C14", "title": "Names, keys and framing are read in any case",
  "statement": "BEGIN, END, VERSION, VCARD, every property name, every parameter key and every group are recognised in any mixture of upper and lower case, a property name also directly after a group, and no prefix or longer spelling of one is taken for it.",
  "quant": "all spellings of all names of RFC 6350, with any group before them",
  "why": "A name of eight letters has 256 spellings and the lexer decides by longest match and priority among all names at once; tests try one or two spellings of a few names.",
  "files": ["src/parser.rs", "src/name.rs"],
  "mech": [("token definitions", "src/parser.rs Token"), ("name dispatch", "src/parser.rs parse_property_by_name")],
  "technique": "automata over the lexer's token definitions; path facts",
  "note": "The token definitions are compiled to one automaton and the winning token of every spelling is decided on it, not by running the lexer."},
 {"id": "C15", "title": "Enumerated values are read and written as the RFC spells them",
  "statement": "For KIND, GENDER's sex, VALUE, TYPE, the telephone types and the related types: every value the RFC defines is read in any case into the variant that is written back with the same spelling, different values are different variants, and no other text is taken for one of them.",
  "quant": "all variants and all texts",
  "why": "There are some fifty spellings over two independent tables (reading and writing); tests sample them.",
  "files": ["src/property.rs", "src/parameter.rs"],
  "mech": [("reading tables", "src/parameter.rs, src/property.rs FromStr"), ("writing tables", "src/parameter.rs, src/property.rs Display")],
  "technique": "abstract interpretation: exact path outputs of both tables, compared",
  "note": "Both directions are interpreted completely per RFC spelling and per variant."},
 {"id": "C16", "title": "Text values are read whole and unescaped",
  "statement": "The text of a stored text value is the value of its line from the first character after the first colon outside quotes to the line break, with every escape sequence of RFC 6350 replaced by the character it stands for and nothing else changed, left out or added twice; a value of any other type is computed from that text of its own line alone.",
  "quant": "all input texts; every property value of every returned card",
  "why": "Escapes may stand anywhere in a value of any length and mix with any other token; tests use a few values.",
  "files": ["src/parser.rs", "src/helper.rs"],
  "mech": [("value reading", "src/parser.rs parse_property_value"), ("unescaping", "src/helper.rs"), ("stores", "src/parser.rs parse_property_by_name")],
  "technique": "abstract interpretation with ghost positions; lexer languages; comparison of replacement tables",
  "note": "The start of the value is a ghost variable of the state; slices are compared with it where they are made, and every token of a value that is put together is accounted for."},
 {"id": "C17", "title": "Parameter values are read whole, unquoted and unescaped",
  "statement": "What is stored of a parameter is its value from the equals sign to the next semicolon or colon, or, if it begins with a double quote, what stands between that and the next double quote, with escape sequences replaced by the characters they stand for and nothing else changed or left out; of a list of values every one is stored once and in order.",
  "quant": "all input texts; every parameter of every returned card",
  "why": "Quotes, escapes and delimiters may stand anywhere inside a value of any length; tests use a few values per parameter.",
  "files": ["src/parser.rs", "src/lib.rs"],
  "mech": [("value reading", "src/parser.rs parse_parameter_value"), ("unescaping", "src/lib.rs unescape_value"), ("stores", "src/parser.rs parse_parameters, add_extension_parameter")],
  "technique": "abstract interpretation with ghost positions; comparison of replacement tables",
  "note": "The start of the value and the state of its quotes are ghosts of the state; slices are compared with them where they are made, list parts are accounted for one by one."},
 {"id": "C18", "title": "Texts are escaped when written",
  "statement": "Every text in a parameter or property value is written so that it cannot end its line, its parameter, its list item or its component and reads back as the same text, whatever characters it contains; except that carriage returns are dropped, double quotes in parameters become single quotes, and commas divide the items of lists of parameter values.",
  "quant": "all texts, in every field of every parameter and property",
  "why": "Any text can hold any mixture of the characters that mean something to a reader; tests write texts that are already harmless.",
  "files": ["src/parameter.rs", "src/property.rs", "src/lib.rs"],
  "mech": [("escaping", "src/lib.rs escape_value"), ("parameters", "src/parameter.rs Display for Parameters"), ("values", "src/property.rs Display")],
  "technique": "abstract interpretation: exact symbolic output, composed replacement tables",
  "note": "The output is a term over the texts written; the replacement tables in it have patterns of at most two characters, so words of up to three characters over the characters that mean something decide it for all texts."},
 {"id": "C19", "title": "Lines are unfolded when read and folded when written",
  "statement": "Before a text is split into lines and tokens every line break that a space or tab follows is removed together with that one character, and nothing else is changed, by every parsing entry point. A card is written as lines that end in CRLF and are at most 75 octets long, except that a single user-perceived character longer than that stays whole; a longer line is divided only between such characters, by CRLF and one space, and every character of it is written once and in order.",
  "quant": "all input texts and entry points; all cards",
  "why": "Folds may stand inside any name, escape, parameter or character of any line, and the length of a line depends on every text in it; tests fold a few lines.",
  "files": ["src/vcard.rs", "src/lib.rs", "src/parser.rs", "src/iter.rs"],
  "mech": [("unfolding before the lexer runs", "src/lib.rs unfold_lines, src/parser.rs VcardParser::new"), ("folding", "src/vcard.rs fold_line")],
  "technique": "abstract interpretation: composed replacement tables; induction over one generic loop iteration",
  "note": "The text given to the lexer is a term over the input, compared with the RFC on all words up to six characters that mean something; for the writer one iteration of the loop over the characters is interpreted on symbols and a length invariant is proved from it."},
 {"id": "C20", "title": "Structured values are read into their components",
  "statement": "The components of names, organisations and categories are what stands between the delimiters that no backslash escapes, each unescaped by itself, every one of them stored once and in order and none left out, also if it is empty; an address is read from exactly seven components into its seven fields, where an empty component is no value; a gender is a sex and, after the first unescaped semicolon, an identity.",
  "quant": "all input texts",
  "why": "Delimiters, escapes and escaped backslashes combine in any number and order; tests use a few values without escapes.",
  "files": ["src/lib.rs", "src/parser.rs", "src/property.rs"],
  "mech": [("split at unescaped delimiters", "src/lib.rs split_unescape"), ("stores", "src/parser.rs parse_property_by_name"), ("addresses and genders", "src/property.rs FromStr")],
  "technique": "abstract interpretation; exact transition function of the split, comparison with the RFC on words",
  "note": "The closure that finds delimiters is interpreted once for any character and any state; its transition function and the replacement table are complete, so words over the characters that mean something decide them."},
 {"id": "C21", "title": "The VALUE parameter decides the kind of value",
  "statement": "A property that may hold several kinds of value (BDAY, ANNIVERSARY, TEL, RELATED, UID, KEY, TZ and X- extensions) is stored as the kind its VALUE parameter names and never as another kind; a VALUE that the property does not admit is an error; every VALUE that RFC 6350 admits on the property is accepted; without VALUE, a text is only stored where the text is no URI (TEL, RELATED, UID, KEY) or text is the default (TZ, extensions), and dates are expected for BDAY and ANNIVERSARY.",
  "quant": "all input texts",
  "why": "Kinds of value, properties and texts that are valid as several kinds combine; tests use one well-formed example of each.",
  "files": ["src/parser.rs", "src/property.rs", "src/parameter.rs"],
  "mech": [("VALUE dispatch", "src/parser.rs parse_property_by_name, parse_extension_property_by_name, parse_text_or_uri, parse_date_time_or_text"), ("kinds of value", "src/property.rs AnyProperty, TextOrUriProperty, TimeZoneProperty, DateTimeOrTextProperty")],
  "technique": "abstract interpretation; facts about the VALUE parameter at every place that stores a property, compared with the variant stored",
  "note": ""},
 {"id": "C22", "title": "The builder and the conversions keep what they are given",
  "statement": "Each builder method changes the property it is named after and no other: it adds its value after those already in a repeatable property and replaces the value of a single one (a gender text that is no gender changes nothing); what is stored holds exactly the value given, its components in order, separated as the RFC separates them (semicolons in names and organisations, commas in categories), without group and parameters. A new card or builder has the formatted name and nothing else, finish returns the card as built, and every conversion into a property holds exactly the value it was made of.",
  "quant": "all values and all sequences of builder calls",
  "why": "Tests call each method once with one value on a fresh builder; that nothing else changes concerns every card and every order of calls.",
  "files": ["src/builder.rs", "src/property.rs", "src/vcard.rs", "src/date_time.rs"],
  "mech": [("builder", "src/builder.rs VcardBuilder"), ("conversions", "src/property.rs, src/date_time.rs From"), ("constructors", "src/vcard.rs Vcard::new, src/property.rs TextListProperty")],
  "technique": "abstract interpretation of every method on an arbitrary card; comparison of the card before and after, field by field",
  "note": "One call on an arbitrary card covers every sequence of calls by induction."},
 {"id": "C23", "title": "Dates, times, offsets and booleans are read and written as the RFC spells them",
  "statement": "A date (basic or extended form, or year and month, or a year), a time, a date with a time, a timestamp and an offset from UTC in an RFC 6350 form is read to exactly the components the text spells, with the offset's sign and with UTC for `Z` or no zone; a date-and-or-time value is taken for a time after `T`, for a date and time if it holds both, and for a date otherwise; booleans are read in any case; texts in no form are errors. Comma-separated lists are read item by item, in order, and one bad item is an error. Written values are the basic RFC form of the same components: YYYYMMDD, hhmmss with zone, both joined by `T`, `T` before a time that stands for a date-and-or-time, sign before an offset, items separated by commas; the library's own Date and DateTime are written and read in RFC 3339 form. Truncated forms (such as --0412), fractions and leap seconds are not part.",
  "quant": "all dates, times, offsets and lists in these forms",
  "why": "Tests read and write a few dates, mostly in UTC; a swapped component, a lost sign or a form tried in the wrong order shows only on particular texts.",
  "files": ["src/helper.rs", "src/date_time.rs", "src/property.rs", "src/parameter.rs"],
  "mech": [("readers", "src/helper.rs parse_*"), ("writers", "src/helper.rs format_*"), ("values", "src/property.rs Display"), ("TZ", "src/parameter.rs Display for Parameters"), ("rfc3339", "src/date_time.rs")],
  "technique": "abstract interpretation on an unknown text or value; path conditions and results evaluated with the meaning of the format descriptions, one text per form",
  "note": "The meaning of the time crate's format descriptions is part of the model."},
 {"id": "C24", "title": "What a card holds is wiped from memory when the card is dropped",
  "statement": "With the feature `zeroize` (on by default), dropping a card, a property or parameters overwrites every text, number and boolean held there, however deep and on every path: values, groups, names and parameters included. `zeroize` on a card or a property wipes the same. Values of the foreign types that the documentation exempts (URIs, dates, times, offsets, language tags, MIME types) are not part.",
  "quant": "all values of all types of which a card holds values",
  "why": "Wiped memory cannot be looked at from a test in safe Rust; a field that is skipped, or a type that lost its destructor, changes nothing else that can be observed.",
  "files": ["src/vcard.rs", "src/property.rs", "src/parameter.rs"],
  "mech": [("destructors", "src/property.rs, src/parameter.rs derive(ZeroizeOnDrop)"), ("zeroize", "src/vcard.rs derive(Zeroize)")],
  "technique": "types reachable from a card enumerated; every destructor and zeroize interpreted path by path, the fields handed to zeroize collected",
  "note": "What zeroize does with the value it is given is the zeroize crate's."},
 {"id": "C25", "title": "The cards of a text are delivered in order, each once",
  "statement": "Parsing a text, strict or loose, returns all its cards in the order of the text, or an error; anything but line breaks between or behind the cards is an error, so no card is passed over, repeated or left unread. The iterator yields the same cards one by one, in the mode asked for: it starts at the beginning, goes on directly behind the END of the card it yielded or, after a card that failed, behind the END of that card (or stops at the end of the text), and ends only where the text ends. Converting a text to a card gives its first card.",
  "quant": "all texts with any number of cards, all entry points, every step of an iteration",
  "why": "Tests parse one or two well-formed cards; what happens behind a failing card or between cards depends on where the failure was.",
  "files": ["src/parser.rs", "src/iter.rs", "src/lib.rs", "src/vcard.rs"],
  "mech": [("list", "src/parser.rs VcardParser::parse"), ("iterator", "src/iter.rs VcardIterator::next"), ("after an error", "src/parser.rs skip_card"), ("conversion", "src/vcard.rs TryFrom<&str> for Vcard")],
  "technique": "typestate of the token stream combined with abstract interpretation of every entry point; resume positions as terms over the lexer",
  "note": "Which tokens a text is split into is decided by logos; positions are compared as terms."},
 {"id": "C26", "title": "Through serde every field comes back as what it was written from",
  "statement": "With the feature `serde`, Serialize writes every field of a card, of its properties, addresses, genders and parameters, whole and under a name of its own, and leaves a field out only if it is empty; Deserialize stores what it reads under this name, in whatever order the names come, in the same field, and takes a name that was left out for an empty field. Enumerations (kinds, sexes, delimiters, VALUE and TYPE parameters) are written under a name that reads back as the same variant with the same value; URIs, MIME types, dates with a time and the like are written as their whole text and read from it. Which of several kinds of value a plain text or list stands for (text or URI, text or date, the values of X- properties) is not written, and not part of this.",
  "quant": "all values of all fields, present or empty, all orders of names",
  "why": "Tests write and read back cards with a few fields set; each name, each left-out field and each wrapper is a separate case, and most are in no test.",
  "files": ["src/vcard.rs", "src/property.rs", "src/parameter.rs", "src/serde.rs", "src/date_time.rs"],
  "mech": [("cards and properties", "src/vcard.rs, src/property.rs derive(Serialize, Deserialize)"), ("parameters", "src/parameter.rs"), ("MIME types", "src/serde.rs media_type")],
  "technique": "abstract interpretation of the derived and hand-written Serialize and Deserialize functions, expanded as they are compiled, with a model of serde's traits",
  "note": "The data format is taken to keep names, order and texts; what serde does for String, Option, Vec and foreign types is trusted."},
]

NOT_APPLICABLE = [
 {"id": "C27", "title": "Parsing takes time and memory in proportion to the text",
  "statement": "The time and the memory used to parse a text, strict or loose, grow no faster than the length of the text, and the memory used to write a card no faster than its contents.",
  "quant": "all texts and cards", "why": "Tests parse small texts; growth shows only on large ones.",
  "files": ["src/parser.rs", "src/vcard.rs", "src/iter.rs"],
  "mech": [("parser", "src/parser.rs VcardParser"), ("folding", "src/vcard.rs fold_line")],
  "reason": "Cost is a runtime quantity that depends on the allocator and on the dependencies (aho-corasick, logos, unicode-segmentation); no static bound on it is in reach here. That parsing ends at all is C02."},
 {"id": "C28", "title": "URIs, language tags and MIME types mean what their RFCs say",
  "statement": "A text is accepted as a URI, language tag, MIME type or geo location exactly if the RFC of the kind allows it, and is written back as an equivalent text.",
  "quant": "all texts", "why": "Tests use a few well-formed texts per kind.",
  "files": ["src/uri.rs", "src/helper.rs", "src/parameter.rs"],
  "mech": [("URI", "src/uri.rs Uri"), ("parameters", "src/parameter.rs")],
  "reason": "Acceptance and spelling are decided inside the dependencies (uriparse, language-tags, mime), which are not part of the repository; the checks take their parse and Display as inverse. That the crate calls them on the whole text and keeps their errors is part of C05, C09 and C20."},
]
