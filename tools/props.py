"""Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


R = "refextract/references/"

p("C01", "Results do not depend on earlier extractions",
  "The result of an extraction depends only on its own arguments. Whatever extractions ran before in the same process - with whatever custom knowledge bases, successful or failed, given as file names, dictionaries or lists that the caller modified in place afterwards - the result is the one a fresh process gives. An extraction never modifies the knowledge bases passed to it.",
  ["histories", "configurations"],
  "every sequence of extractions in one process, each with any combination of default, custom, invalid and in-place modified knowledge bases",
  "Tests call the extractor with at most two knowledge bases in a row and look at one of them; they never fail a load, mutate a source in place, or return to an earlier configuration.",
  [R + "kbs.py", R + "engine.py", R + "api.py"],
  [("get_kbs", R + "kbs.py"), ("load_kb", R + "kbs.py")],
  [("kbs cache", "knowledge bases of the last call, per type, with the input they were loaded from", R + "kbs.py:get_kbs")],
  ["api.extract_references_from_string", "api.extract_journal_reference", "extract.extract_journal_info"])

p("C02", "Nested and concurrent extractions do not disturb each other",
  "Extractions may overlap: a linker callback may start another extraction with other knowledge bases, and several threads may extract at the same time. Each of them returns exactly what it returns when it runs alone.",
  ["schedules", "histories"],
  "every interleaving of the steps of concurrent extractions, and every nesting of extractions through callbacks, with any combination of knowledge bases",
  "No test runs two extractions at the same time or from inside a callback.",
  [R + "kbs.py", R + "engine.py"],
  [("KBS_LOCK / per-call view of the knowledge bases", R + "kbs.py:get_kbs"), ("associate_recids", R + "engine.py")],
  [("kbs cache", "shared by all calls of the process", R + "kbs.py:get_kbs")],
  ["api.extract_references_from_string with linker_callback", "api.extract_journal_reference in threads"])

p("C03", "Downloads leave no files behind and report every failure as documented",
  "Extracting from a URL leaves no temporary file behind, whether it succeeds or fails at any point (connection, HTTP status, transfer, storing, extraction), and it never returns a partial download as if it were the document. HTTP error statuses are reported as a missing full text, other failures reach the caller unchanged, and the request carries the headers given by the caller. A successful download gives the same references as the same bytes in a local file.",
  ["fault_sequences", "inputs", "crash_points"],
  "every point at which creating, requesting, transferring, storing or extracting can fail, every HTTP status class, any URL and chunking",
  "Tests exercise one successful and one 404 download, without looking at the temporary directory and without faults during the transfer.",
  [R + "api.py", R + "errors.py"],
  [("try/except/finally around the download", R + "api.py:extract_references_from_url")],
  [("temporary file", "the download", R + "api.py:extract_references_from_url")],
  ["api.extract_references_from_url", "files in the temporary directory", "requests received by a local server"])

p("C04", "Cleaning a PDF removes only the junk around the document",
  "Before a file is read, bytes preceding the PDF header and bytes following the last end marker are removed from it in place, and nothing else: every byte from the header up to and including the last end marker is kept unchanged and in order. A file without a header, without junk, or whose last end marker does not follow the header keeps all bytes from its header on (all of its bytes if it has none), and reading a file a second time changes nothing.",
  ["inputs", "histories"],
  "every sequence of bytes, headers and end markers in a file, and every sequence of extractions from the same file",
  "Tests read a few well-formed PDFs and one packed PDF and check the extracted references only.",
  [R + "engine.py"],
  [("clean_pdf_file", R + "engine.py"), ("get_plaintext_document_body", R + "engine.py")],
  None, ["bytes of the file after engine.get_plaintext_document_body / api.extract_references_from_file"])

p("C05", "Documents are accepted or refused by content, with the documented errors",
  "A path that is not an existing file gives the full-text-not-available error and a file that is neither a PDF nor plain text (also an empty one) gives the unknown-document-type error; nothing else about a readable document makes the extraction fail, be it its name, a symbolic link, missing permission to write (unless junk precedes the PDF in it) or damage to it. The kind of a document is decided by its content and not by its name, text that is not valid UTF-8 is still read, and every line of a text document is available to the extraction. References of a PDF are looked for in reading order first and in the page layout when there are none, and a document without a reference section gives an empty list.",
  ["inputs", "configurations"],
  "every kind of path, file content, encoding, file name and combination of raw/layout text",
  "Tests cover one unknown type and a handful of PDFs; no misleading names, encodings, empty files, directories, or the layout fallback.",
  [R + "engine.py", R + "api.py", R + "errors.py", "refextract/documents/pdf.py"],
  [("get_plaintext_document_body", R + "engine.py"), ("extract_references_from_file", R + "api.py"), ("convert_PDF_to_plaintext", "refextract/documents/pdf.py")],
  None, ["api.extract_references_from_file", "engine.get_plaintext_document_body"])

p("C06", "Batch extraction gives one answer per input and isolates failures",
  "Extracting a list of references returns exactly one answer per reference, in order; a reference that cannot be parsed or has no result is answered by its unchanged text and does not affect the others. Extracting publication information returns one answer per request, in order, with an empty answer where nothing is found, and either all answers or none at all if it fails. All these entry points, also the text and URL ones, never raise, and format journal references with commas.",
  ["inputs", "histories", "fault_sequences"],
  "every list of references or publication requests, with any subset failing or empty, in any order",
  "Tests use one list and one failure each and do not vary positions or mix failures with successes.",
  ["refextract/extract.py"],
  [("extract_references_from_list", "refextract/extract.py"), ("extract_journal_info", "refextract/extract.py"), ("extract_references_from_text", "refextract/extract.py"), ("extract_references_from_file_url", "refextract/extract.py")],
  None, ["extract.extract_references_from_list", "extract.extract_journal_info", "extract.extract_references_from_text", "extract.extract_references_from_file_url"])

p("C07", "Only page breaks, repeated headers and repeated footers are removed",
  "Before the reference section of a document is looked for, page-break lines and the lines that are repeated at the top or bottom of its pages are removed, and no other line: all other lines keep their text and order. Lines count as repeated only if the pages agree in number of words and, for at least 90% of the words, in being numbers or in first and last letter. Headers are judged by the pages after the second page break (every second of them in longer documents), footers by all pages after the first. Nothing at all, page breaks included, is removed when there are fewer than two page breaks or when the pages are too short to hold more than header and footer.",
  ["inputs"],
  "every document: any number of pages and lines per page, with any pattern of agreeing and differing boundary lines",
  "The header and footer detection is only exercised through whole PDFs whose expected output was recorded from the code.",
  ["refextract/documents/text.py", R + "text.py"],
  [("remove_page_boundary_lines", "refextract/documents/text.py"), ("get_number_header_lines", "refextract/documents/text.py"), ("get_number_footer_lines", "refextract/documents/text.py"), ("strip_headers_footers_pagebreaks", "refextract/documents/text.py")],
  None, ["raw_ref of api.extract_references_from_string(is_only_references=False) / from_file"])

p("C08", "The reference section starts at its title, or else at its first number",
  "The references of a document are those after the section title: the first title of a run of titles that all lack numbering, but a title followed by a line numbered 1, or carrying the first reference on its own line, is preferred over one without; 'References' is looked for before 'Bibliography' and that before rarer titles. Without any title, the section starts at the last line numbered 1 that is followed by number 2 within ten lines or stands within the last five lines, trying bracketed, then dotted, then plain numbers. Neither the title nor anything before the start is reported as a reference; text on the title line after the title belongs to the first reference when it carries its number.",
  ["inputs"],
  "every sequence of titles, numbered lines (in brackets, parentheses, dotted, plain), and text lines",
  "Tests check five short documents; the interplay of several titles, markers and fallbacks is not exercised.",
  [R + "find.py", R + "text.py", R + "regexs.py"],
  [("find_reference_section", R + "find.py"), ("find_reference_section_no_title_via_brackets", R + "find.py"), ("find_reference_section_no_title_via_dots", R + "find.py"), ("find_reference_section_no_title_via_numbers", R + "find.py"), ("find_numeration", R + "find.py"), ("get_reference_lines", R + "text.py")],
  None, ["find.get_reference_section_beginning", "api.extract_references_from_string(is_only_references=False)"])

p("C09", "The reference section ends at the section that follows it, and not before",
  "The reference section extends to the end of the document unless a title of a section that can follow it (appendix, acknowledgements, figures, tables, ...) or a numeric table comes after its start; then the lines from there on are not reported as references. A title is not the end when one of the next 200 lines carries a number that continues the numbering of the references, and a line that itself carries the next number is a reference whatever its text. No line between the start and the end is dropped, except repetitions of the section title.",
  ["inputs"],
  "every sequence of numbered references, continuation lines, titles of following sections, number tables and blank lines after the start",
  "No test has a reference section that is interrupted or followed by another section with further numbered lines.",
  [R + "find.py", R + "text.py"],
  [("find_end_of_reference_section", R + "find.py"), ("get_reference_lines", R + "text.py"), ("strip_footer", R + "text.py")],
  None, ["raw_ref of api.extract_references_from_string(is_only_references=False)"])

p("C10", "References are reassembled from lines without losing or mixing text",
  "When the lines of a reference section are reassembled, every line is part of exactly one reference and the text of the references in order is the text of the lines in order; words hyphenated at a line end are joined and all other line ends become one space. A new reference starts exactly where the next number in sequence appears - or at blank lines or at unindented lines when references are not numbered - and never at a number out of sequence. A reference keeps at most 25 of its lines.",
  ["inputs"],
  "every sequence of lines with markers in or out of sequence at the start or in the middle, hyphens, indentation, blank lines",
  "Three tests on fixed lists; no systematic mixture of markers in and out of sequence, hyphens, blank separation, indentation and long references.",
  [R + "text.py", "refextract/documents/text.py"],
  [("rebuild_reference_lines", R + "text.py"), ("join_lines", "refextract/documents/text.py"), ("test_for_blank_lines_separating_reference_lines", R + "text.py")],
  [("current reference number and lines collected so far", "state of the reassembly", R + "text.py:rebuild_reference_lines")],
  ["text.rebuild_reference_lines", "raw_ref of api.extract_references_from_string"])

p("C11", "Every piece of a reference ends up in the field it belongs to, none is lost",
  "Whatever is recognised in a reference (authors, collaborations, quoted titles, journals, report numbers, identifiers, links, publishers, years) is reported under its own field with exactly its text or canonical form, and all remaining text is reported as miscellaneous text in order. No word of the reference is lost, duplicated, truncated or attributed to a neighbouring piece, whatever spacing, punctuation or characters stand between the pieces.",
  ["inputs"],
  "every sequence of recognisable and unrecognisable pieces joined by any spacing, punctuation and non-ASCII characters",
  "Tests compare complete outputs for some real references; they do not combine pieces, spacing and characters systematically, and pin what the code gave.",
  [R + "tag.py", R + "engine.py", R + "record.py"],
  [("tag_reference_line and offset bookkeeping", R + "tag.py"), ("account_for_stripped_whitespace", R + "tag.py"), ("parse_tagged_reference_line", R + "engine.py"), ("build_reference_fields", R + "record.py")],
  None, ["api.extract_references_from_string"])

p("C12", "Several citations in one reference are separated, each with its own data",
  "A reference that cites several papers is split into one record per paper: at a semicolon, and where something a paper has only once (journal, arXiv number, DOI, link, title, ISBN, ...) comes a second time; adjacent report numbers and collaborations do not split. All records carry the number and the full text of the reference, and every piece is reported in the record it stands in. A paper without author takes over the last author of the paper before it, and after a split by repetition an author standing at the end of a paper that already has one belongs to the next paper.",
  ["inputs"],
  "every sequence of authors, journals, report numbers, arXiv numbers, DOIs, links, titles, collaborations and text with or without semicolons",
  "Tests contain some multi-citation lines; the orders of fields, semicolons and authors are not enumerated.",
  [R + "engine.py", R + "record.py"],
  [("split_citations_iter", R + "engine.py"), ("split_needed", R + "engine.py"), ("insert_postponed_auth", R + "engine.py"), ("build_references", R + "record.py")],
  [("current citation, types seen, postponed author", "state of the splitting", R + "engine.py:split_citations_iter")],
  ["api.extract_references_from_string"])

p("C13", "Ibid and bare numeration refer to the journal cited just before",
  "An explicit ibid, or a bare numeration after a semicolon, is reported as a journal reference with the title of the journal cited immediately before it on the same line. It has the volume letter it carries itself, or else that of the journal it refers to, and its own volume, year and page. Without a journal before it on its line nothing is made up, whatever was cited in other lines or earlier extractions.",
  ["inputs", "histories"],
  "every sequence of journals with and without volume letters, ibids, and bare numerations, within one line and across lines",
  "Tests cover a few ibid lines; chains of ibids with changes of letters and journals, and ibids without a journal, are not enumerated.",
  [R + "tag.py", R + "engine.py"],
  [("add_tagged_title_in_place_of_IBID", R + "tag.py"), ("look_for_implied_ibids", R + "engine.py"), ("identify_ibids", R + "tag.py")],
  [("previous title and series", "what an ibid stands for", R + "tag.py:process_reference_line")],
  ["api.extract_references_from_string", "api.extract_journal_reference"])

p("C14", "A record has one year, one author, one DOI, and no repeated collaboration",
  "Every reported record has at most one author group, one DOI and one entry per collaboration; surplus authors are kept as text. Its year is the year of its journal or book, or else a year in parentheses or standing alone (not part of a longer number) in its text, and this year is then no longer part of the text. Records never share a year with other records of the same line.",
  ["inputs"],
  "every sequence of authors, DOIs, collaborations, journals with and without year, books, years in text",
  "Tests never repeat DOIs or collaborations and have single years only.",
  [R + "engine.py", R + "regexs.py"],
  [("add_year_elements", R + "engine.py"), ("remove_duplicated_authors", R + "engine.py"), ("remove_duplicated_dois", R + "engine.py"), ("remove_duplicated_collaborations", R + "engine.py")],
  None, ["api.extract_references_from_string"])

p("C15", "Journal numeration gives the same volume, year and page in every notation",
  "A journal followed by volume, page and optional year in any of the supported notations (orders, separators, 'vol.' and 'p.' prefixes, page ranges, issue numbers, letters before or after the volume) is reported with the same volume, page and year. Roman volumes are converted to arabic ones, volume letters come before the number, and journals counted by year get a volume of year and two-digit number and three-digit pages (one without a year whose page could be a year stays text). Contributions to PoS have the name and year of the conference as volume.",
  ["inputs"],
  "every combination of notation, separators, volume letter, roman or arabic volume, page range, year",
  "Tests check single examples of some notations.",
  [R + "tag.py", R + "engine.py", R + "regexs.py"],
  [("find_numeration", R + "tag.py"), ("format_volume", R + "engine.py"), ("mangle_volume", R + "engine.py"), ("handle_special_journals", R + "engine.py"), ("split_volume_from_journal", R + "engine.py")],
  None, ["api.extract_journal_reference", "api.extract_references_from_string", "tag.find_numeration"])

p("C16", "Identifiers are reported completely and in canonical form",
  "arXiv numbers in every old and new style, DOIs, handles, ISBNs, report numbers and links are reported in their canonical form, independent of prefix, brackets, punctuation and case around them. Exactly the identifier is taken: neither part of it is left in the text nor is neighbouring text absorbed, and each is reported once per occurrence in the order of the reference.",
  ["inputs"],
  "every style of identifier, prefix, version suffix, bracket and surrounding punctuation, alone and next to each other",
  "Tests have one or two examples per style in one surrounding.",
  [R + "tag.py", R + "regexs.py", R + "engine.py"],
  [("tag_arxiv / tag_arxiv_more", R + "tag.py"), ("identify_and_tag_DOI", R + "tag.py"), ("identify_and_tag_URLs", R + "tag.py"), ("look_for_hdl", R + "engine.py"), ("identify_report_numbers", R + "tag.py"), ("arxiv_urls_to_report_numbers", R + "engine.py")],
  None, ["api.extract_references_from_string"])

p("C17", "Any text is answered by well-formed records",
  "Extraction from any string terminates without an exception and returns a list of records. Every record has exactly one raw text, which is a reassembled line of the input, and every other field is a non-empty list of non-empty strings from the documented set of fields, without internal markup. The number of a record is the number its line starts with.",
  ["inputs", "configurations"],
  "every string: any mixture of recognisable pieces, markup-like text, control and non-ASCII characters, with any of the options and knowledge bases",
  "Tests use realistic references only.",
  [R + "api.py", R + "engine.py", R + "tag.py", R + "record.py"],
  [("build_reference_fields", R + "record.py"), ("remove_reference_line_marker", R + "engine.py"), ("strip_tags", R + "tag.py")],
  None, ["api.extract_references_from_string"])

p("C18", "The linker is asked about every element, and its answer reported once",
  "A linker callback is called for every element found in a reference, including journals inferred from ibids and books found afterwards, with complete information about the element. A record gets the record id of its first element for which the callback returned one when asked last, and at most one; a lookup error raised by the callback for an element counts as no answer, and other errors reach the caller. Without a callback no record id is reported, and callbacks do not change any other field.",
  ["inputs", "configurations", "fault_sequences"],
  "every sequence of elements and every pattern of answers, missing answers and errors of the callback",
  "One test uses a callback that answers one constant for journals.",
  [R + "engine.py", R + "record.py"],
  [("associate_recids", R + "engine.py"), ("add_recid_elements", R + "engine.py")],
  None, ["api.extract_references_from_string(linker_callback=...)"])

p("C19", "Citation keys and links of a PDF go to their own references or nowhere",
  "Citation keys found in a PDF are attached to the references in reading order - page by page, column by column (if three keys start at the same place in the right half), top to bottom - one per reference, and only if there are exactly as many keys as references. Links are attached to the reference they stand in, that is to the last key before them in reading order, and never to another one; links before the first key are not attached. They follow the links found in the text, sorted and without duplicates. PDFs with missing, damaged or unusual destinations or annotations may give references without keys and links, but never wrong ones and never an error.",
  ["inputs", "configurations", "fault_sequences"],
  "every arrangement of destinations on pages and columns, every placement of link annotations, every kind of malformed structure",
  "Tests check nine given PDFs.",
  [R + "pdf.py", R + "api.py", R + "record.py"],
  [("extract_texkeys_and_urls_from_pdf", R + "pdf.py"), ("extract_references_from_file", R + "api.py"), ("update_reference_with_urls", R + "record.py")],
  None, ["pdf.extract_texkeys_and_urls_from_pdf", "api.extract_references_from_file"])

p("C20", "Knowledge bases mean the same in every supported form, longest title first",
  "A custom knowledge base gives the same results whether it is passed as a file, a dictionary or a list, and overrides exactly the knowledge base it is named after. A journal is recognised by every title that maps to it and by its own standard name, regardless of case and punctuation, and where several titles of the knowledge base match at the same place the longest one is taken. Comment lines in files are ignored, and a file of journals, journal regexps, collaborations or publishers with a line that is no entry is reported as an error. Of several publishers whose names match at the same place the longest one is taken, and a collaboration is recognised by each of its names. A report number is recognised with each of the categories and number patterns of its institute, longest first, and reported with the standard form of the category. A quoted title that is the title of a book, regardless of case, is reported with the title and year of that book.",
  ["configurations", "inputs"],
  "every small knowledge base in every form, every combination of overridden types, and every reference using its titles",
  "Tests load one or two knowledge bases per form.",
  [R + "kbs.py", R + "tag.py"],
  [("get_kbs", R + "kbs.py"), ("build_journals_kb", R + "kbs.py"), ("create_institute_numeration_group_regexp_pattern", R + "kbs.py"), ("identify_journals", R + "tag.py")],
  None, ["api.extract_references_from_string(override_kbs_files=...)", "kbs.get_kbs"])

p("C21", "A list of lines is parsed like its lines one by one",
  "Parsing a list of reference lines gives exactly the concatenation of what parsing each line alone gives, in order: no line influences another one. The statistics returned with it are the sums of those of the lines.",
  ["inputs", "histories"],
  "every list of reference lines, including repeated, empty, unparsable and ibid-only ones",
  "Tests parse lists but never compare them with their lines, and ignore the statistics.",
  [R + "engine.py", R + "tag.py"],
  [("parse_references_elements", R + "engine.py"), ("sum_2_dictionaries", R + "tag.py"), ("build_stats", R + "engine.py")],
  None, ["engine.parse_references", "api.extract_references_from_string"])

if __name__ == "__main__":
    for x in P:
        print(json.dumps(x, ensure_ascii=False))
