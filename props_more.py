"""Descriptions of the properties after P02."""
REF = ["src/reference/mod.rs", "src/reference/builder.rs", "src/reference/parts.rs", "src/reference/unchecked.rs"]
STRUCT = ["src/parser/structure/act.rs", "src/parser/structure/article.rs", "src/parser/structure/sae.rs", "src/parser/structure/structural_element.rs", "src/parser/structure/subtitle.rs"]


def PROPS(P):
    return [
        P("P03", "References are well formed and have exactly the parts they were made from",
          "A reference is built exactly when its parts form a path: a subpoint only under a point of a kind it can belong to, a point only under an article, only the last part may be a range, and no range is reversed. A built reference reports exactly the act, article, paragraph, point and subpoint it was given; setting a part on a builder drops everything below it. The first and last element of a reference, its parent, its form without the act, and the range made of two references are the ones the parts say, and incomparable references give an error, never a panic.",
          "all combinations of parts with all range ends (16 bit numbers, letters), all builder histories of up to 4 operations, all pairs for range making",
          "the tests build a few dozen literal references; the rules combine five levels, two kinds of points, ranges and builder histories",
          REF, [("ReferenceBuilder", "src/reference/builder.rs"), ("Reference::make_range / parent / first_in_range / last_in_range", "src/reference/mod.rs"), ("UncheckedReference::try_into", "src/reference/unchecked.rs")]),
        P("P04", "Containment and relative references agree with the tree of parts",
          "One reference contains another exactly when it is the same element, an ancestor of it, or a range the other's part lies in; a reference is the parent of exactly its proper descendants; containment is transitive. A reference made relative to another one resolves to the parts of the relative reference completed with the missing upper parts of the other one, or is an error.",
          "all pairs (and triples for transitivity) of valid references within the stated shapes; numbers 16 bit, letters a-z",
          "the tests list around forty pairs out of all combinations of shapes, kinds and ranges",
          REF + ["src/identifier/range.rs"], [("Reference::contains / is_parent / relative_to", "src/reference/mod.rs")]),
        P("P05", "References survive being written and read back",
          "The compact form of every reference reads back as the same reference. Reading arbitrary text either fails with an error or gives a reference whose compact form reads back as itself, and never panics. The displayed Hungarian form of a reference shows every part of it, with its identifiers, in order.",
          "every shape and kind of reference with symbolic numbers and letters, suffixes, books and acts; all texts up to 8 characters of the alphabet of the compact form",
          "the tests round-trip a handful of references",
          ["src/reference/string.rs", "src/util/compact_string.rs", "src/reference/unchecked.rs"] + ["src/identifier/range.rs"],
          [("CompactString for Reference, Display for Reference", "src/reference/string.rs")]),
        P("P06", "Lines are cut and joined without losing, inventing or misplacing characters",
          "A slice of a line has exactly the characters of the given range with the same boldness, its indentation is where its first character stood, cutting by bytes agrees with cutting the text, and no bounds make it panic. Joining lines into text puts one space between non-empty lines, undoes end-of-line hyphenation unless a conjunction follows, and skips empty lines; putting lines together into one line keeps every character in its place. Boldness (more than two thirds of the characters), justification, equality and emptiness of a line are those of its characters.",
          "lines of up to 5 characters of one, two and three bytes with symbolic boldness, any 64 bit bounds, up to 3 lines for joining",
          "the tests slice two literal lines; bounds, multi-byte characters, boldness and hyphenation combine",
          ["src/util/indentedline.rs"], [("IndentedLine::slice / slice_bytes / from_multiple / append_to, IndentedLine::is_bold", "src/util/indentedline.rs")]),
        P("P07", "Parsing any lines keeps all text and leaves no gaps in the numbering",
          "Whatever lines an act's body consists of, parsing its structure either fails with an error or gives an act that holds every character of the body text in order (apart from spacing and the brackets and quotes of quoted blocks), whose articles, paragraphs, points and subpoints start with the first identifier and follow each other without gaps, with at least two in every list. It never panics.",
          "all sequences of up to 3 lines (4 within a paragraph) of 20 kinds of headers, texts, quotes and near-headers with symbolic digits and letters, and all short texts after an article header",
          "the tests parse sample acts; malformed and ambiguous sequences of lines are where text gets lost",
          STRUCT + ["src/parser/structure/quote.rs", "src/structure.rs"], [("parse_act_structure", "src/parser/structure/act.rs"), ("SAEParser::parse", "src/parser/structure/sae.rs")]),
        P("P08", "A well-formed act is parsed into exactly its structure",
          "An act written by the drafting rules (preamble, books, parts, titles, chapters, subtitles, articles with any of the numbering schemes, titles in brackets, paragraphs, lettered and numbered points, both kinds of subpoints, intro and wrap-up texts, lines broken anywhere) parses to exactly that structure: the same elements in the same order with the same identifiers, titles, intros, texts and wrap-ups. Lines that only look like headers (wrong number, wrong indentation, wrong kind, missing colon) stay text.",
          "all acts within the stated counts of elements, lines and depth, with symbolic text and numbering choices",
          "the tests cover a dozen sample acts; the shapes of lists, breaks and wrap-ups multiply",
          STRUCT + ["src/util/indentedline.rs", "src/util/hun_str.rs"], [("parse_act_structure", "src/parser/structure/act.rs"), ("SAEParser", "src/parser/structure/sae.rs"), ("StructuralElementParser / SubtitleParser", "src/parser/structure/")]),
        P("P09", "Quoted text is kept as it is and never becomes structure",
          "Lines inside quotation marks, whatever they look like, never become articles, paragraphs, points or structural elements of the quoting act: they are kept, in order and with their indentation, in the quoted block they stand in, together with the bracketed text before and after it. An act whose quotation marks do not balance is an error. The quote level counts opening minus closing marks and is never negative.",
          "all placements of 1..2 quoted blocks of up to 3 lines with 14 kinds of header-like lines inside, nested quotes and bracketed texts; all sequences of up to 4 lines with quote marks",
          "the tests contain a few amending acts; nesting and header look-alikes inside quotes are not enumerated",
          ["src/parser/structure/quote.rs", "src/parser/structure/sae.rs", "src/parser/structure/act.rs", "src/parser/structure/article.rs", "src/util/mod.rs"],
          [("QuotedBlockParser", "src/parser/structure/quote.rs"), ("QuoteCheck", "src/util/mod.rs")]),
        P("P10", "A fixup changes exactly the line it names, to exactly the new text",
          "Applying a fixup either fails and changes nothing, or replaces exactly one line, the only one whose text is the old one and that directly follows the given context, by a line with exactly the new text (an empty line if there is none). It fails exactly when there is no such line, more than one, or nothing to change. Characters the two texts share at the beginning and end keep their position, the characters of the new line stand in increasing positions, and justification and boldness are kept unless the fixup makes the line bold.",
          "bodies of 1..4 lines, 0..2 lines of context, old and new texts of up to 5 characters of one to three bytes",
          "the tests apply one fixup; the alignment of old and new text has many shapes",
          ["src/fixups.rs"], [("Fixup::apply", "src/fixups.rs")]),
    ] + MORE(P) + NA(P)


def MORE(P):
    return [
        P("P11", "The acts section of a gazette issue is cut into exactly its acts",
          "From the lines of an issue, every act in the acts section, and nothing outside of it, becomes one raw act with the right year, number, subject, date and exactly the lines of its body in order: the table of contents, the footers and signatures, other sections and lines that only resemble a header are not part of any act. The publication date is the one on the cover page. Arbitrary lines give an error or acts, never a panic.",
          "issues of a table of contents, 0..2 acts and 6 kinds of section ends; any 4 lines or page breaks out of 9 kinds after an act header; covers of 0..5 lines",
          "the tests cut two sample issues; page breaks, footers and look-alikes fall anywhere",
          ["src/parser/mk_act_section.rs"], [("parse_mk_pages_into_acts / ActExtractor", "src/parser/mk_act_section.rs")]),
        P("P12", "Text output shows the whole act, within the given width, and nothing else",
          "The plain text output of an act has every structural element, article, paragraph, point, intro and wrap-up of the act in order, each with its header and indented by its depth, words separated by exactly one space or line break; lines break only where the next word would not fit the width (a word longer than a whole line is cut). No width makes it panic. The coloured output is the plain one with escape codes, and a line written with its marks reads back as the same line. Pages of lines and raw acts are written with every line, in order, on its own line.",
          "texts of 1..4 words at widths from 0, all kinds of elements and children, up to two marked references",
          "the tests print one act at the default width",
          ["src/output/text.rs", "src/output/mod.rs", "src/util/indentedline.rs"], [("TextOutput for every element, SimpleTextWriter", "src/output/text.rs")]),
        P("P13", "Amending text becomes exactly the elements the amendment announces",
          "Converting a paragraph with one quoted block and an amending phrase turns the quoted lines into exactly the articles, paragraphs, points, subpoints or structural elements they consist of, starting with the announced identifier, with all the text and with the intro and wrap-up of the block; headers inside nested quotes stay text. If the lines do not start with the announced element, the conversion is an error and the paragraph stays as it was; other paragraphs never change. It never panics.",
          "18 kinds of announced positions with any two of 11 kinds of lines; 1..2 well-formed elements of every kind with one to two lines, nested lists and wrap-ups",
          "the tests convert a few amending acts",
          ["src/parser/structure/block_amendment.rs", "src/parser/structure/sae.rs", "src/parser/structure/article.rs"], [("Paragraph::convert_block_amendments", "src/parser/structure/block_amendment.rs")]),
        P("P14", "Walking an act meets every element once, in order, under its reference",
          "Walking an act visits every structural element, article, paragraph, point and subpoint exactly once, in document order, entering before and leaving after its children, each with the reference that names it; a changing walk sees and changes the same elements, and a visitor's error ends it. Looking up an article finds the one with that identifier, exactly if there is one. An element's reference and emptiness say what the element is and whether it has text.",
          "acts of 1..3 children of every kind, all kinds of points and subpoints with symbolic identifiers, quoted blocks and block amendments with contents; 0..3 articles of symbolic identifiers looked up by any identifier",
          "the tests walk one sample act",
          ["src/util/walker.rs", "src/structure.rs", "src/reference/to_element.rs"], [("WalkSAE, WalkSAEMut and their visitors", "src/util/walker.rs"), ("Act::article, is_empty", "src/structure.rs"), ("ReferenceToElement", "src/reference/to_element.rs")]),
        P("P15", "Pages of a PDF become their visible characters, in lines, in reading order",
          "Every character that a text showing operator of a (simple, uncompressed) PDF page paints inside of the crop box, also through forms, fonts of the graphics state and replacement texts, becomes one character of the page, at its place, with its font's boldness; whitespace is not taken from the file but put where the gap is wider than half a space, or before an opening quotation mark. Characters whose heights differ by less than half a point form a line, from left to right, lines go from top to bottom with an empty line where the gap is over 16 points, and a line is justified exactly if it reaches the right margin. Pages do not influence each other, and what cannot be interpreted is an error, never a panic.",
          "generated one to three page files: any three of 25 operators, all codes of the Windows encoding, composite and named-character fonts, 2 characters at any whole coordinates of a square, any crop box, 12 senseless contents",
          "the tests read two sample files",
          ["src/parser/pdf/mod.rs", "src/parser/pdf/page.rs", "src/parser/pdf/font.rs", "src/parser/pdf/collector.rs", "src/parser/pdf/textstate.rs", "src/parser/pdf/page_of_lines.rs", "src/parser/pdf/actual_text.rs"],
          [("parse_pdf", "src/parser/pdf/mod.rs"), ("PageRenderer", "src/parser/pdf/page.rs"), ("PageOfLines", "src/parser/pdf/page_of_lines.rs")]),
        P("P16", "What is saved as JSON or YAML reads back as the same thing",
          "Every act, element, identifier, reference, structural reference, special phrase and fixup, saved as JSON or YAML, reads back equal to what was saved, whatever its texts contain and whichever optional parts are present. A reference with gaps or with a range before its last part is refused when it is read. The JSON and YAML command line output is exactly this form.",
          "identifiers with symbolic numbers and letters, every shape of reference, any text of 2 bytes and texts with a meaning in YAML in 9 places of an act, all kinds of children, last changes and special phrases",
          "the tests read and write a few sample acts",
          ["src/structure.rs", "src/semantic_info.rs", "src/identifier/", "src/reference/unchecked.rs", "src/reference/structural.rs", "src/util/singleton_yaml.rs", "src/fixups.rs", "src/output/mod.rs"],
          [("Act", "src/structure.rs"), ("SpecialPhrase", "src/semantic_info.rs"), ("UncheckedReference", "src/reference/unchecked.rs"), ("to_string, from_str", "src/util/singleton_yaml.rs")]),
        P("P17", "Ordinals, headings and dates mean the number, element and day they name",
          "Every number up to 99 has its Hungarian ordinal, which reads back as the number in lower case, upper case and capitalised; larger numbers and misspelled ordinals are errors. The heading of every book, part, special part, title and chapter names its number, and parses to the same element. A date written in Hungarian is read as exactly that day if it exists, and is an error otherwise, including misspelled months and days a month does not have.",
          "all numbers of 16 bits, all elements up to 99, every day 0..99 of every month of a century, any single character of a word or date replaced by any other",
          "the tests check that ordinals read back and a few dates",
          ["src/util/hun_str.rs", "src/structure.rs", "src/identifier/numeric.rs", "src/parser/structure/structural_element.rs"],
          [("FromHungarianString, ToHungarianString", "src/util/hun_str.rs"), ("header_string, parse_identifier", "src/structure.rs")]),
    ]


def NA(P):
    return [
        P("X01", "References, amendments and dates are extracted from the text as it says them",
          "Every outgoing reference, abbreviation, block and text amendment, repeal and enforcement date in the text of an act is extracted with the right element, position and parts, whatever the phrase order, and positions lie on character boundaries inside the text.",
          "all sentences of the grammar", "the tests are a corpus of sample sentences",
          ["src/parser/semantic_info/mod.rs", "src/parser/semantic_info/reference.rs", "hun_law_grammar/hun_law.ebnf"], [("AbbreviationCache, GetOutgoingReferences", "src/parser/semantic_info/")],
          na="the grammar is generated by the peginator crate, which is not available offline: neither the grammar nor src/parser/semantic_info compiles here, so there is no real code to execute symbolically"),
        P("X02", "The downloader returns the cached or downloaded bytes unchanged",
          "An issue that is in the cache is never downloaded again, what is downloaded is what is stored and returned, and a failed download leaves no file in the cache.",
          "all cache states and network faults", "no test touches the network",
          ["src/mk_downloader.rs"], [("download_mk_issue", "src/mk_downloader.rs")], over=("fault_sequences", "inputs"),
          na="the behaviour is entirely in ureq, tempfile and the file system (sockets, TLS, rename): system calls the symbolic executor has no semantics for; modelling them would verify the model, not the code"),
        P("X03", "Compressed, encrypted and damaged PDF files are read or refused",
          "Content behind stream filters, object streams, encryption or a damaged cross-reference table is either read as it would be without or refused with an error.",
          "all PDF files", "the tests parse two sample files",
          ["src/parser/pdf/mod.rs"], [("parse_pdf", "src/parser/pdf/mod.rs")],
          na="all of it is inside the pdf crate (inflate, decryption, repair), none in this repository; a symbolic compressed file forks beyond any reachable bound. What this repository does with the decoded content is P15"),
        P("X04", "The command line tool writes the output it was asked for",
          "Each subcommand, output format and width option writes exactly the corresponding library output to the named file, or nothing on error.",
          "all command lines", "there are no tests of the binary",
          ["src/bin/hun_law/main.rs", "src/bin/hun_law/fixup_editor.rs"], [("main", "src/bin/hun_law/main.rs")],
          na="the binary depends on the semantic parser (peginator crate missing), so it does not compile here; besides it is argument parsing and file system calls"),
    ]
