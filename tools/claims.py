HOOKS = None
CLAIMS = {
 "C01": ("proof", "ParseStream, Parse, ParseString, ParseJsonStreams and everything under them: no panic, in bounds, terminating (loop and recursion measures), end offset in range; strconv, utf8, utf16 and logging are assumed contracts", None),
 "C25": ("proof", "closing-delimiter postconditions of parseQuoteString, parseDict, parseArray, ParseStream", None),
 "C02": ("proof", "quoteString, escapeJsonChar, JSONString.String against a byte-by-byte quoting function; RFC 8259 well-formedness of the quoted text proved as a lemma", None),
 "C03": ("proof", "quoteString and the string parser under functional contracts; decode(quote(s)) == s proved as a lemma; the text of a whole dictionary, keys included, read back is C05", None),
 "C07": ("proof", "String and buildString of every document type against a text function of the heap; equal content gives equal text proved as a lemma; number formatting is an assumed contract", None),
 "C08": ("proof", "Set, Remove, RemoveIgnoreCase, Get, Contains, Size, SortedKeys and the sortedmap functions under them, against a finite-map specification", None),
 "C09": ("proof", "Get, Contains and Add under path contracts: the value at a path, what Add changes, when it fails; Add assumes that the dictionaries on the path are distinct objects with distinct storage", None),
 "C10": ("proof", "GetIgnoreCases, ContainsIgnoreCases, RemoveIgnoreCase against a relation of case variants along the path; strings.EqualFold is an assumed contract", None),
 "C12": ("proof", "Equals of every document type against structural equality; equivalence proved as lemmas", None),
 "C19": ("proof", "Less, compare, Len, Swap under contract against a spec order; order axioms proved as lemmas; string2Segments, segments2string and stringSegments2Strings under contract, so that splitting and joining reproduces every canonical key; strings.Split, strings.Join and strconv are assumed contracts", None),
 "C27": ("proof", "NewJSONError under full functional contract", None),
 "C11": ("proof", "GetAt, GetArray, Add, SetAt and the array constructors under contract against the element sequence; JSONArray.Add assumes that its argument list does not share the array's storage", None),
 "C14": ("proof", "Copy, CopyExcludes, CopyIncludes under contract against the dictionary as a finite map", None),
 "C15": ("proof", "Update and UpdateDefault under contract, with the frame that the argument is unchanged", None),
 "C16": ("proof", "Diff under contract: each of the four results described key by key; inputs unchanged", None),
 "C18": ("proof", "Int, Float, Bool, GetString, GetMap, GetArray, Get, Contains of every document type under contract; strconv and case folding are assumed contracts", None),
 "C24": ("proof", "Interface of every document type against a relation between document and Go value; number conversion exact", None),
 "C13": ("proof", "DeepCopy under contract: same content, every node (nulls aside, which hold nothing) and its storage new, nothing that existed written to", None),
 "C26": ("proof", "CheckRequiredFields, the string-list helpers, GetAnyString(2), GetArrayOfPrefix and GetQueryStringArray under full functional contracts over the document and its key paths; fmt.Sprintf of decimal integers is an assumed contract", None),
 "C17": ("proof", "frame contracts (modifies nothing) of every reading method and function, proved over all heaps; race freedom follows because no store to a document is reachable; the code under assumed contracts (strconv, fmt, strings, net/url) is taken to write to no document", None),
 "C20": ("proof", "simpleQueryString, _queryString and QueryString of every document type against a query-text function of the heap; ParseQueryString, parseQueryString, addQueryStringSeg and the segment functions under contract for flat texts, and lemmas that the text of a flat dictionary is one and is read back as an equal dictionary; url.QueryEscape, url.ParseQuery (which parameters a text made of escaped pairs has), strings.Join, strings.Split and sort.Sort are assumed contracts", None),
 "C21": ("proof", "the whole path from Marshal and MarshalAll down: struct2JSONPairs (every scalar field is either legally omitted or written under its name with the right document), the dispatch on types and kinds in _marshalValue, and marshalInt64/Float64/Float32/Boolean/String/Time/Tristate under full functional contracts over a model of package reflect; package reflect, FetchStructFieldValueSet, fmt.Sprintf and timeutils.FullIsoTime are assumed contracts; values behind pointers, in maps and in slices of mixed kinds, and how NewDict combines fields of one name, are a bounded driver, not proved", None),
 "C04": ("proof", "the parser under functional contracts against a grammar of RFC 8259 written as spec functions over byte positions (gv) and a meaning relation (mv); strconv.ParseInt/ParseFloat and strings.ToLower are assumed contracts, and which decimal texts are in range is theirs to say", None),
 "C05": ("proof", "String of every document against its text function, the parser against the RFC 8259 grammar, and lemmas, by induction over the document, that the text is a text of the grammar and means the same document; that strconv writes numbers as JSON numbers it reads back is an assumed contract", None),
 "C06": ("proof", "PrettyString of every document against its pretty-text function, the parser against the RFC 8259 grammar, and lemmas, by induction over the document, that the pretty text is a text of the grammar, means the same document and is read back as a document equal to the one the compact text gives; that strconv writes numbers as JSON numbers it reads back is an assumed contract", None),
 "C22": ("proof", "unmarshalValue of JSONInt, JSONFloat, JSONBool and JSONString, indirectStdUnmarshaler, normalizeCurrencyString and utils.ToBool under full functional contracts over a model of package reflect (a setter's ghost record of what was stored where); package reflect, strconv number parsing, the currency regular expressions and time parsing are assumed contracts", None),
 "C23": ("proof", "frame conditions over every unmarshalValue, the map and struct readers, the pointer bookkeeping and Unmarshal itself: no direct store reaches an existing document, and every store through package reflect has the proved precondition that it goes to storage of the target and not through a pointer to a document; DeepCopy under its C13 contract; package reflect, FetchStructFieldValueSet and user UnmarshalJSON and AfterUnmarshal methods are assumed contracts", None),
}
NA = {
 "C28": "quantifies over Go types as programs: the code goes through reflect and struct tags for types that exist only at run time, so no contract on a function of /repo within the reach of a deductive verifier states it (the scalar part is C21 and C22)",
 "C29": "decided by the third-party YAML reader and writer, which are outside /repo; the conversion code has no specification without one for them",
 "C30": "decided by reflect and the node-id bookkeeping over arbitrary pointer graphs of run-time types; no contract within reach expresses the Go-side graph",
}
