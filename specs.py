"""What each check runs: harness entries, the bounds they cover, and the witnesses they must reach."""


def H(entry, bounds, covers=(), **kw):
    return dict(entry=entry, bounds=bounds, covers=list(covers), **kw)


SPECS = {
    "P01": dict(
        harnesses=[
            H("vp_p01_chars", "all pairs of the 34 identifier letters", [1, 2]),
            H("vp_p01_numeric", "all pairs: number 0..65535, suffix none or any of 34 letters", [1]),
            H("vp_p01_article", "all pairs: book none or 0..255, number 0..65535, suffix none or any of 34 letters", [1, 2]),
            H("vp_p01_paragraph", "all pairs: empty, or number 0..65535 with suffix none or a-z", [1]),
            H("vp_p01_prefixed", "all pairs: prefix none or any of 34 letters, letter a-z", [1]),
            H("vp_p01_act", "all pairs: year any 16 bit, number any 32 bit"),
            H("vp_p01_ranges", "start, end, probe: number 0..65535, suffix none or a-z", [1]),
        ],
    ),
    "P02": dict(
        harnesses=[
            H("vp_p02_chars", "all 34 identifier letters", [1]),
            H("vp_p02_numeric", "number 0..65535, suffix none or any of 34 letters; 4 text forms", [1]),
            H("vp_p02_article", "book none or 0..255, number 0..65535, suffix none or a-z; 3 text forms", [1]),
            H("vp_p02_paragraph", "empty, or number 0..65535 with suffix none or a-z; 3 text forms", [1]),
            H("vp_p02_prefixed", "prefix none or a-z, letter a-z; 3 text forms", [1]),
            H("vp_p02_act_compact", "year 0..32767, number 0..99999", [1]),
            H("vp_p02_act_text_number", "year 2013, number 1..300", [1]),
            H("vp_p02_act_text_number_all", "year 2013, number 1..3999", [1], tier="thorough"),
            H("vp_p02_act_text_year", "year 1000..9999, number one of 4, 177, 4000", [1]),
            H("vp_p02_act_display", "any year, any number outside 1..3999 is written; read back for year 1000..9999, number 0 or 4000..99999", [1]),
            H("vp_p02_ranges", "start, end: number 0..65535, suffix none or a-z", [1]),
            H("vp_p02_romans", "number 0..65535, no suffix", [1]),
            H("vp_p02_romans_suffix", "7 numbers, suffix none or any of 34 letters", [1]),
            H("vp_p02_romans_all", "number 0..65535, suffix none or any of 34 letters", [1], tier="thorough"),
            H("vp_p02_numeric_text3", "all valid UTF-8 texts of 3 bytes", [1]),
            H("vp_p02_numeric_text4", "all valid UTF-8 texts of 4 bytes", [1]),
            H("vp_p02_numeric_text6", "all texts of 6 characters out of 0-9 / a b c y z s A C S Y Z : - . space newline", [1]),
            H("vp_p02_roman_text", "all texts of 1..4 characters out of I V X L C D M / a b z s A C S Z 1 space", [1]),
            H("vp_p02_char_text", "all valid UTF-8 texts of 0..3 bytes", [1]),
            H("vp_p02_prefixed_text", "all valid UTF-8 texts of 0..4 bytes", [1]),
            H("vp_p02_article_text", "all valid UTF-8 texts of 0..4 bytes", [1, 2]),
            H("vp_p02_paragraph_text", "all valid UTF-8 texts of 0..4 bytes", [1]),
            H("vp_p02_range_text", "all texts of 0..4 characters out of 0-9 / - a b z . : space", [1]),
            H("vp_p02_act_text_6", "all ASCII texts of 6 characters", [1, 2]),
            H("vp_p02_act_text_7", "all ASCII texts of 7 characters", [1, 2], tier="thorough"),
            H("vp_p02_act_text_classic", "'2013. évi RRR. törvény', R any of IVXLC", [1]),
            H("vp_p02_act_text_classic_all", "'dddd. évi RRR. törvény', digits 1000..9999, R any of IVXLCDM", [1], tier="thorough"),
        ],
    ),
    "P03": dict(
        harnesses=[
            H("vp_p03_build", "any combination of the five parts, both point kinds, any range ends (16 bit, a-z)", [1, 2]),
            H("vp_p03_history3", "builder: any 3 set or reset operations", [1]),
            H("vp_p03_history4", "builder: any 4 set or reset operations", [1]),
            H("vp_p03_ends", "every shape of valid reference, values symbolic", [1]),
            H("vp_p03_range_same", "pairs of valid references of the same shape", [1, 2]),
            H("vp_p03_range_any", "pairs of valid references without act, numbered points", [1, 2]),
            H("vp_p03_range_any_kind", "all pairs of valid references", [1, 2]),
        ],
    ),
    "P04": dict(
        harnesses=[
            H("vp_p04_plain", "pairs of references without act, numbered points; the last part of each may be a range", [1, 2]),
            H("vp_p04_act", "pairs of references with and without act", [1, 2]),
            H("vp_p04_kinds", "pairs with number or letter points and subpoints", [1, 2]),
            H("vp_p04_all", "all pairs of valid references", [1, 2]),
            H("vp_p04_relative", "pairs of references with and without act, numbered points", [1, 2]),
            H("vp_p04_relative_kinds", "all pairs of valid references", [1, 2]),
            H("vp_p04_chain", "every valid reference and its ancestors", [1]),
            H("vp_p04_transitive", "all triples of references without act, numbered points", [1]),
        ],
    ),
    "P05": dict(
        harnesses=[
            H("vp_p05_compact", "every shape and kind of reference without act, numbers 0..9, letters a-z", [1]),
            H("vp_p05_compact_act", "every shape and kind, with and without act (year 2012, number 1..9), numbers 0..9", [1]),
            H("vp_p05_compact_wide", "every shape and kind without act, numbers 0..999", [1], tier="thorough"),
            H("vp_p05_suffixes", "suffixes (all 34 letters), books 0..9 and prefixed letters at each level", [1]),
            H("vp_p05_text6", "all texts of 6 characters out of _ - . 1 a", [1]),
            H("vp_p05_text8", "all texts of 8 characters out of _ - 1 a", [1]),
            H("vp_p05_display", "every shape and kind, numbers 0..9, letters a-z, no act or a fixed act", [1]),
        ],
    ),
    "P06": dict(
        harnesses=[
            H("vp_p06_slice3", "lines of 0..3 letters a-z, any boldness, any 64 bit bounds", [1, 2]),
            H("vp_p06_slice5", "lines of 0..5 letters a-z, any boldness, any 64 bit bounds", [1, 2]),
            H("vp_p06_slice_bytes2", "lines of 0..2 characters of 1, 2 and 3 bytes, every pair of character boundaries", [1]),
            H("vp_p06_slice_bytes3", "lines of 0..3 characters of 1, 2 and 3 bytes, every pair of character boundaries", [1], tier="thorough"),
            H("vp_p06_multiple2", "2 lines of 0..2 characters, any boldness", [1]),
            H("vp_p06_multiple3", "3 lines of 0..2 characters, any boldness", [1]),
            H("vp_p06_cut", "lines of 4 letters, any boldness, any 64 bit cut", [1]),
            H("vp_p06_equality", "pairs of 2 letter lines, any boldness", [1]),
            H("vp_p06_joining", "3 lines out of 6 x 8 x 3 texts with hyphens, conjunctions and empty lines", [1]),
            H("vp_p06_header", "'d. ' followed by 0..2 characters", [1, 2]),
        ],
    ),
    "P07": dict(
        harnesses=[
            H("vp_p07_any1", "any one of 20 kinds of lines, digits and letters symbolic", [1, 2]),
            H("vp_p07_any2", "any two lines", [1, 2]),
            H("vp_p07_any3", "any three lines", [1, 2], tier="thorough"),
            H("vp_p07_after1", "article header and any one line, all digits, all letters a-z", [1, 2]),
            H("vp_p07_after2", "article header and any two lines", [1, 2]),
            H("vp_p07_after3", "article header and any three lines", [1, 2], tier="thorough"),
            H("vp_p07_nested3", "article and paragraph header, three lines that are paragraph, point or subpoint headers, text or quotes, at two indentations", [1]),
            H("vp_p07_nested4", "the same with four lines", [1], tier="thorough"),
            H("vp_p07_raw3", "article header followed by any 3 characters out of a 1 ( ) . [ : space", [1]),
            H("vp_p07_raw4", "article header followed by any 4 of them", [1]),
        ],
    ),
    "P08": dict(
        harnesses=[
            H("vp_p08_act2", "preamble of 0..2 lines, then 2 elements: books, parts, titles, chapters, subtitles, articles with 4 numbering schemes", [1]),
            H("vp_p08_act3", "preamble, then 3 elements", [1]),
            H("vp_p08_act4", "4 elements", [1], tier="thorough"),
            H("vp_p08_titled", "article titles of 0..3 lines, unnumbered or 2..4 paragraphs of 1..2 lines, empty lines", [1]),
            H("vp_p08_points2", "two paragraphs with points", [1]),
            H("vp_p08_points2_full", "two paragraphs with points, both fully varied", [1], tier="thorough"),
            H("vp_p08_points", "a paragraph with 2..3 points of either kind, line breaks, indentation, wrap-ups of 0..2 lines", [1]),
            H("vp_p08_long_alpha", "lists of 2..34 lettered points, with and without digraphs", [1]),
            H("vp_p08_long_num", "2..13 numbered points or paragraphs with suffixes", [1]),
            H("vp_p08_subpoints", "2..3 points, one with 2..3 subpoints of each kind, line breaks, wrap-ups at both levels", [1]),
            H("vp_p08_decoys", "31 kinds of lines that look like headers but are none", [1]),
            H("vp_p08_indents", "4 article headers, each at any of 6 indentations", [1, 2]),
            H("vp_p08_article_decoys", "10 kinds of lines that look like article headers, between two articles", [1]),
        ],
    ),
    "P09": dict(
        harnesses=[
            H("vp_p09_level2", "QuoteCheck over 2 lines of 0..3 characters out of a and the three quote marks", [1, 2]),
            H("vp_p09_level3", "QuoteCheck over 3 lines of 0..2 characters", [1, 2]),
            H("vp_p09_blocks", "1..2 quoted blocks of 1..3 lines, 8 kinds of header-like lines inside, nested quotes, empty lines, bracketed intro and wrap-up, wrap-up of the paragraph", [1]),
            H("vp_p09_remarks", "a bracketed remark of 1..3 lines before or after the block, with brackets and a quotation broken over its lines", [1]),
            H("vp_p09_inside", "1..2 header-like lines of 14 kinds inside a quotation within an article; the next article follows", [1]),
            H("vp_p09_unbalanced3", "article header and 3 lines out of 8 kinds with quote marks", [1, 2]),
            H("vp_p09_unbalanced4", "article header and 4 lines out of 8 kinds with quote marks", [1, 2], tier="thorough"),
        ],
    ),
    "P10": dict(
        harnesses=[
            H("vp_p10_place2", "2 lines, no context; texts of 0..1 letters, new text of 0..2", [1, 2]),
            H("vp_p10_place3", "3 lines, one line of context", [1, 2]),
            H("vp_p10_place3_plain", "3 lines, no context", [1, 2]),
            H("vp_p10_place4", "4 lines, two lines of context", [1, 2]),
            H("vp_p10_place_short", "fewer lines than the fixup names", [2]),
            H("vp_p10_shape3", "9 old texts of 0..3 letters, any new text of 0..3 letters a b c, bold and justified or not", [1, 2]),
            H("vp_p10_shape4", "7 old texts of 4..5 letters, any new text of 0..5 letters a b c", [1, 2]),
            H("vp_p10_shape_multi", "5 old texts of 0..3, any new text of 0..3 characters of two and three bytes", [1, 2]),
        ],
    ),
    "P11": dict(
        harnesses=[
            H("vp_p11_head", "one act: 4 years, 3 numerals, subject of 1..3 lines, line or page break before", [1]),
            H("vp_p11_headers", "a header with any byte replaced by any ASCII character or left out", [1, 2]),
            H("vp_p11_body", "one act: 8 kinds of misleading body lines, empty lines and page breaks in three places", [1]),
            H("vp_p11_footer", "one act: none, one or two asterisk footers; three signatures", [1]),
            H("vp_p11_sections", "table of contents of 4 kinds, an act before the section, 0..2 acts in it, 6 ends of section and an act after it", [1]),
            H("vp_p11_any4", "act header and any 4 of 9 kinds of lines and page breaks", [1, 2]),
            H("vp_p11_any5", "act header and any 5 of them", [1, 2], tier="thorough"),
            H("vp_p11_cover", "0..2 pages, 0..5 lines on the cover, right or wrong title and date", [1]),
        ],
    ),
    "P12": dict(
        harnesses=[
            H("vp_p12_wrap_fit", "paragraph text of 1..3 words of 1, 3 or 4 letters, 6 widths", [1]),
            H("vp_p12_wrap_narrow", "1..2 words of 1 or 3 letters, 13 widths down to 0", [1]),
            H("vp_p12_wrap_any", "1..4 words of 1, 2, 3, 5 or 8 letters, 16 widths", [1], tier="thorough"),
            H("vp_p12_elements", "0..3 structural elements, subtitles, empty and simple articles", [1]),
            H("vp_p12_nested", "an article with and without title, one paragraph with every kind of children", [1]),
            H("vp_p12_colors", "0..2 references of 0, 2 or 4 letters in a text of 1..2 words, 3 widths, with and without special phrase", [1]),
            H("vp_p12_pages", "0..2 pages of 0..2 lines, an act as raw text, with and without marks", [1]),
            H("vp_p12_marked", "lines of 0..3 letters, bold and justified or not, 16 indentations", [1]),
        ],
    ),
    "P13": dict(
        harnesses=[
            H("vp_p13_elements", "1..2 paragraphs, points or subpoints of either kind, of 1..2 lines, from an arbitrary first identifier, right or wrong; article header before paragraphs", [1, 2]),
            H("vp_p13_nested", "a paragraph or point with points or subpoints, line breaks, one or two wrap-ups", [1]),
            H("vp_p13_articles", "1..2 articles with titles, paragraphs and nested quotes, right or wrong first identifier", [1, 2]),
            H("vp_p13_titles", "title-only amendments of 5 kinds, with and without header, 0..2 lines", [1]),
            H("vp_p13_complex", "chapter or subtitle with 0..2 articles", [1]),
            H("vp_p13_others", "paragraphs without exactly one quoted block", [2]),
            H("vp_p13_act", "two articles of two paragraphs, each plain, amending, or failing", [1, 2]),
            H("vp_p13_any0", "18 kinds of phrases, no lines", [1, 2]),
            H("vp_p13_any1", "18 kinds of phrases, any one of 11 lines", [1, 2]),
            H("vp_p13_any2", "18 kinds of phrases, any two of 11 lines", [1, 2]),
            H("vp_p13_elements3", "1..3 elements", [1, 2], tier="thorough"),
            H("vp_p13_articles3", "1..3 articles", [1, 2], tier="thorough"),
            H("vp_p13_any3", "18 kinds of phrases, any three of 11 lines", [1, 2], tier="thorough"),
        ],
    ),
    "P14": dict(
        harnesses=[
            H("vp_p14_deep", "one paragraph of every kind of body, points and subpoints of every kind, all identifiers symbolic", [1]),
            H("vp_p14_wide", "0..2 children of an act, 0..2 paragraphs in each article, with points, quotes and amendments", [1]),
            H("vp_p14_failing", "a visitor failing at any event", [1]),
            H("vp_p14_changing_deep", "a visitor changing every text, on deep acts", [1]),
            H("vp_p14_changing_wide", "a visitor changing every text, on wide acts", [1]),
            H("vp_p14_cutting", "a visitor removing the children of any element", [1]),
            H("vp_p14_finding", "0..2 articles of symbolic identifiers, any identifier looked up", [1, 2]),
            H("vp_p14_finding3", "0..3 articles", [1, 2], tier="thorough"),
            H("vp_p14_wide3", "0..3 children of an act", [1], tier="thorough"),
            H("vp_p14_references", "the reference of every kind of element", [1]),
            H("vp_p14_emptiness", "emptiness of every kind of children, 0..2 of them, two levels", [1]),
        ],
    ),
    "P15": dict(
        harnesses=[
            H("vp_p15_ops1", "text, any one of 25 operators, text", [1]),
            H("vp_p15_ops2", "text, any two of 25 operators, text", [1]),
            H("vp_p15_ops3", "text, any three of 25 operators, text", [1], tier="thorough"),
            H("vp_p15_codes", "three codes of seven widths in a row", [1]),
            H("vp_p15_encoding", "any code from 32 on in the Windows encoding", [1]),
            H("vp_p15_two_bytes", "1..3 two-byte codes of 6 kinds in a composite font with a unicode map", [1]),
            H("vp_p15_differences", "named characters over 3 base encodings, with and without a unicode map", [1, 2]),
            H("vp_p15_space_width", "4 widths of space, 5 font names, 16 gaps", [1]),
            H("vp_p15_actual_text", "5 replacement texts, 3 kinds of marked content, 0..2 hidden characters", [1]),
            H("vp_p15_anywhere1", "a character and one in any of 100 columns and 10 heights at and above it", [1]),
            H("vp_p15_anywhere2", "a character and one in any of 100 columns and 10 heights below it", [1]),
            H("vp_p15_anywhere3", "a character and one at any whole coordinates of a 100 by 100 square around it", [1], tier="thorough"),
            H("vp_p15_boxed", "2 characters in any crop box of half point coordinates up to 1024", [1]),
            H("vp_p15_drift", "4 characters side by side at any of 5 heights around the limit of a line", [1]),
            H("vp_p15_placed2", "2 characters in 4 columns and 6 heights, any order", [1]),
            H("vp_p15_placed3", "3 characters", [1], tier="thorough"),
            H("vp_p15_cropped", "2 characters at 25 places inside and outside of 3 boxes", [1]),
            H("vp_p15_quotes", "3 quotation marks or other characters with and without gaps", [1]),
            H("vp_p15_pages", "0..3 pages with the same font names for different fonts", [1], max_violations=60),
            H("vp_p15_nonsense", "12 senseless and borderline contents", [1, 2]),
        ],
    ),
    "P16": dict(
        harnesses=[
            H("vp_p16_ids", "JSON of any number, every kind of identifier and range of one-digit numbers and any letters", [1]),
            H("vp_p16_act_ids", "JSON of any year and number", [1]),
            H("vp_p16_references", "JSON of every shape of reference, numbers below 10, any letters", [1]),
            H("vp_p16_bad_references", "any parts read as a reference from JSON", [1, 2]),
            H("vp_p16_reference_yaml", "YAML of 12 references", [1]),
            H("vp_p16_act_texts", "10 texts in 9 places of an act, JSON and YAML", [1]),
            H("vp_p16_text_json2", "JSON of any text of 2 bytes", [1]),
            H("vp_p16_text_json3", "JSON of any text of 3 bytes", [1], tier="thorough"),
            H("vp_p16_text_yaml", "YAML of texts with a symbolic character in 24 contexts", [1]),
            H("vp_p16_words_yaml", "51 texts with a meaning in YAML, as text and in fixups", [1]),
            H("vp_p16_acts", "paragraphs with all kinds of children, optional parts present or not", [1]),
            H("vp_p16_elements", "all structural elements with all kinds of last changes", [1]),
            H("vp_p16_articles", "0..2 articles", [1]),
            H("vp_p16_output", "the JSON and YAML command line output", [1]),
            H("vp_p16_structural_references", "JSON of every kind of structural reference", [1]),
            H("vp_p16_semantic", "every special phrase, references and abbreviations", [1]),
        ],
    ),
    "P17": dict(
        harnesses=[
            H("vp_p17_ordinals", "every number 1..99, three spellings", [1]),
            H("vp_p17_large_ordinals", "any number above 100", [1]),
            H("vp_p17_wrong_ordinals", "7 ordinals in three spellings with any one letter replaced by one of 12 characters", [1, 2]),
            H("vp_p17_headings", "headings of books, parts, special parts, titles and chapters 1..99", [1]),
            H("vp_p17_no_headings", "any number that has no heading", [1]),
            H("vp_p17_parsed_headings", "headings of 10 numbers parsed again", [1]),
            H("vp_p17_months", "all months, any letter replaced by any ASCII character", [1]),
            H("vp_p17_dates", "all days 0..99 of all months of any year 2000..2099", [1, 2]),
            H("vp_p17_all_dates", "all days 0..99 of all months of any year of 8 centuries", [1, 2], tier="thorough"),
            H("vp_p17_wrong_dates", "3 dates with any byte replaced by any ASCII character", [1, 2]),
        ],
    ),
}
