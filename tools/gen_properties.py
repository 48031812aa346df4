#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
U='crates/utility/src/'; L='crates/lexer/src/'; F='crates/localiser/src/'; S='crates/provider/sqlite3/src/'; P='crates/provider/core/src/'
props=[]
def p(id,title,statement,over,text,why,files,mech,observe,**kw):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe))
    d['anchors'].update(kw); assert len(title)<=80,(id,len(title)); props.append(d)

p('C01','Tokenising loses nothing and every position is exact',
 "For every non-empty string and non-empty grammar, the texts of the tokens, in order, concatenate to exactly the string, no token is empty, and the iteration ends. Every token's byte start, length and end and its character start and length locate exactly its text in the string; its grapheme length is the number of grapheme clusters of its text, and its grapheme start is the sum of the grapheme lengths of the tokens before it. An empty string and an empty grammar are each reported as an error.",
 ['inputs'],'all strings (any Unicode scalar values) x all grammars (any characters)',
 'The tests tokenise three short ASCII strings with one grammar; positions over multi-byte, multi-character and multi-grapheme text are never compared.',
 [L+'lexer.rs',L+'icu.rs'],[('token boundaries and running positions','LexerIterator::next, LexerIterator::token'),('input validation','LexerIterator::try_new')],['tokens yielded by the lexer iterator'])
p('C02','Token types follow the character properties and the grammar, in maximal runs',
 "Every character of a tokenised string is in a token whose type is decided by that character alone: white space for Unicode Pattern_White_Space, otherwise grammar for a Pattern_Syntax character that is listed in the grammar, otherwise syntax for any other Pattern_Syntax character, otherwise identifier. Each grammar character is a token of its own, and all other tokens are maximal runs of one type. Order and repetition of the characters of the grammar, and the listing of characters without the property Pattern_Syntax, change nothing.",
 ['inputs'],'all strings x all grammars',
 'Tests sample ASCII letters, spaces and the four grammar characters; the property covers every code point and every adjacency of types.',
 [L+'lexer.rs',L+'icu.rs'],[('classification','LexerIterator::token_type and the first character in try_new'),('property sets','IcuDataProvider::try_new')],['token types yielded by the lexer iterator'])
p('C03','Language tags: canonical, one shared instance per tag, malformed text rejected',
 "Looking up a text in the language tag registry succeeds exactly when the text is a well-formed Unicode language identifier (in any letter case, with hyphens or underscores), and gives the tag whose text is the canonical form of that identifier and whose ICU language equals the parsed identifier. Whatever was looked up before, in any order and by any spelling, all spellings of the same tag give the very same shared instance (also from the canonical text itself), and so does the ICU language of a tag. A text tagged with a tag gives back exactly that text and that tag. Text that is not well-formed gives an error and leaves the registry unchanged.",
 ['inputs','histories'],'all texts and all histories of lookups on one registry',
 'Tests look up en_ZA and one malformed text on a fresh registry.',
 [U+'language.rs',U+'error.rs'],[('lookup and interning','LanguageTagRegistry::tag'),('ICU language interning','LanguageTagRegistry::icu_language, LanguageTag::icu_language')],['results of tag() and icu_language()'])
p('C04','The tag registry lists exactly what was looked up',
 "After any history of lookups, the list of tags contains each canonical tag that was successfully looked up exactly once and nothing else. The list of deprecated tags contains one entry (the canonical tag) for each distinct non-canonical spelling that was successfully looked up, and the list of all is exactly both lists together.",
 ['histories'],'all histories of lookups (well-formed, non-canonical, malformed, repeated)',
 'Tests count the entries after a single lookup.',
 [U+'language.rs'],[('registry maps','LanguageTagRegistry::tag'),('lists','list, list_deprecated, list_all')],['list(), list_deprecated(), list_all()'])
p('C05','Literal text comes out exactly as meant',
 "A string that is empty or contains none of the four grammar characters is returned unchanged, whatever the values supplied. For every text, writing it with a grave accent before each grammar character, or as a literal pattern (in braces and grave accents, inner grave accents doubled), or as any mixture of both, in the main string or in a named string, formats to exactly that text. A request for the literal string returns the stored string unchanged even if it contains grammar characters or is not a valid pattern.",
 ['inputs'],'all texts, all splittings into escaped and literal-pattern pieces, main and named strings, all languages',
 'Tests contain one or two escapes in a fixed sentence.',
 [F+'tree.rs',F+'formatter.rs',F+'localiser.rs'],[('escape handling','Tree::try_new states String, SubString, LiteralText, Literal'),('text parts','part_text'),('no grammar shortcut','Localiser::actual_format'),('literal strings','Localiser::actual_literal')],['Localiser::format, Localiser::literal'])
p('C06','Pattern strings are accepted exactly when the documented grammar allows them',
 "Every string that conforms to the documented grammar and its side conditions (known keywords, options and option values, plural categories, a branch for the selector other in plural and ordinal patterns, branches that name an existing named string, unique placeholders and named strings, registered commands) is accepted and formats as its structure says. Every string that violates them - unbalanced or misplaced braces, grave accents or number signs, missing separators, syntax characters in patterns, unknown or missing elements, a branch to the main string or a cycle of branches - is rejected with an error instead of being formatted. White space (Pattern_White_Space of any kind and amount) between the elements of a pattern and between named strings never changes the outcome.",
 ['inputs'],'all strings over the grammar alphabet and identifiers: sentences of the grammar, mutated sentences, and token soup',
 'Tests cover about a dozen fixed strings; acceptance is a statement about every string.',
 [F+'tree.rs',F+'formatter.rs'],[('parser states','Tree::try_new'),('options and selectors','part_pattern, pattern_selectors, part_command')],['Localiser::format: Ok or Err'])
p('C07','Nothing a caller supplies makes localisation panic, hang or overflow the stack',
 "For every stored string, every set of placeholder values, every language and every call of the API, formatting returns a text or an error and never panics, aborts or fails to terminate; the same holds for the conversion of any text as ISO date or time, for the built-in commands with any non-empty parameter list, for tokenising any text, and for tag lookups of any text. Repeating the same call on a fresh localiser gives the same text, or again an error.",
 ['inputs'],'all strings, values of all kinds (extreme numbers, NaN, malformed dates), languages, options',
 'Tests use well-formed patterns and friendly values.',
 [F+'tree.rs',F+'formatter.rs',F+'command.rs',F+'localiser.rs',L+'lexer.rs',U+'language.rs'],[('parsing','Tree::try_new, Formatter::try_new'),('formatting','Formatter::format'),('ISO text','decompose_iso_date, decompose_iso_time')],['return of every public call'])
p('C08','String placeholders are replaced by exactly their value, in place',
 "In the formatted text every string placeholder is replaced by exactly the text of its value (plain, tagged or already localised) and the text around it is unchanged; values are inserted verbatim and never interpreted as patterns, and values without a placeholder have no effect. A placeholder in a part that has to be formatted whose value is missing, or whose value is of another kind, gives an error that names the missing placeholder; a missing value in a branch that is not selected does not matter.",
 ['inputs'],'all patterns with string placeholders x all assignments of values (missing, surplus, containing grammar characters)',
 'Tests substitute one or two ASCII values.',
 [F+'formatter.rs',F+'localiser.rs'],[('substitution','Formatter::format_pattern, PatternString')],['Localiser::format'])
p('C09','Decimal patterns render numbers as the locale and the options demand',
 "A decimal pattern renders every finite number (integer, unsigned, float, fixed decimal) exactly as ICU does for the language of the string with the requested sign and grouping options (auto where an option is absent, the last one where repeated), without losing digits. The kind of the value does not matter: equal numbers supplied as different kinds give the same text. Not-a-number, infinities and values that are not numbers give an error.",
 ['inputs'],'all numeric values of 128 bit integers, doubles and fixed decimals x 5 signs x 4 groupings x languages',
 'Tests format one number in one language with one option.',
 [F+'formatter.rs'],[('options','part_pattern, sign_display, decimal_grouping_display'),('rendering','Formatter::format_pattern, PatternDecimal')],['Localiser::format'])
p('C10','Date and time patterns render values as the locale and the options demand',
 "A date_time pattern renders a date and time, a date only, or a time only exactly as ICU does for the language of the string with the requested date and time lengths (medium where absent, the last one where repeated) and with the requested calendar where one is given. Any other kind of value than a date, a time, both, or a text gives an error.",
 ['inputs'],'all dates and times (years -9999 to 9999) x lengths x calendars x languages',
 'Tests format one date in one language with default options.',
 [F+'formatter.rs'],[('options','part_pattern, date_length, time_length'),('rendering','Formatter::format_pattern, PatternDateTime')],['Localiser::format'])
p('C11','ISO 8601 text means the same as the typed date or time',
 "A text value in one of the documented ISO 8601 forms (basic or extended date, reduced precision, signed years; time with T prefix, basic or extended, reduced precision, fraction of a second, Z or offset; both joined by T) formats exactly as the typed value it denotes: omitted month and day are 1, omitted time parts are 0, the offset is not applied. Text with a component that is not a number or out of range (month, day of that month, hour, minute, second), or with a wrong number of digits in the basic forms, gives an error.",
 ['inputs'],'all calendar dates and times in all documented spellings, and mutations of them',
 'Tests use two or three fixed spellings.',
 [F+'formatter.rs'],[('ISO text','decompose_iso_date, decompose_iso_time'),('choice of kind','Formatter::format_pattern, PatternDateTime String value')],['Localiser::format with text values, decompose_iso_date, decompose_iso_time'])
p('C12','Plural and ordinal patterns branch by the plural rules of the language',
 "For every number, a plural pattern continues with the named string given for the cardinal plural category, and an ordinal pattern with the one for the ordinal category, that the rules of the string's language assign to the number (taking visible fraction digits of fixed decimals into account), or with the one given for other if that category is not listed. The order of the selectors and of the named strings, and the number of patterns sharing a named string, do not matter. A value of an unsuitable kind (for ordinal anything but an unsigned integer) gives an error.",
 ['inputs'],'all numbers of all kinds x languages (all CLDR plural rule families) x all subsets and orders of categories containing other',
 'Tests use English one/other with two numbers.',
 [F+'formatter.rs'],[('category and branch','find_number_sign, plural_category, pattern_selectors')],['Localiser::format'])
p('C13','Select patterns branch on exactly the value, and branches nest',
 "A select pattern continues with the named string given for the selector that equals the value exactly (plain, tagged or localised text), otherwise with the one for other, and gives an error when neither exists or the value is not text. Named strings may contain any patterns, including further branching patterns, to any depth and any sharing, and the formatted branch takes the place of the pattern.",
 ['inputs'],'all selector sets, values and nesting structures (acyclic, any depth)',
 'Tests have one select with two selectors and one level.',
 [F+'formatter.rs',F+'tree.rs'],[('branch choice','Formatter::select'),('nesting','Formatter::format_pattern')],['Localiser::format'])
p('C14','The number sign shows the number that selected the branch',
 "Every number sign pattern in a named string that a plural or ordinal pattern branched to shows the number of that very pattern, formatted as a decimal with default options for the language of the string, wherever in the string it stands and however often the named string is used by different patterns in one format. Formats are independent: numbers of one format never show in a later one of the same (cached) string, nor do nested branches disturb the numbers of the branch around them.",
 ['inputs','histories'],'all numbers, positions and multiplicities of number signs, sharing and nesting of branches, sequences of formats of one cached string',
 'Tests check a single number sign in one branch once.',
 [F+'formatter.rs'],[('number parts','find_number_sign, update_number_part, Formatter::numbers'),('parsing of #','Tree::try_new SubString')],['Localiser::format'])
p('C15','Commands receive exactly their parameters and their result is inserted',
 "An immediate command is called with its own name followed by its parameters in order, identifiers and literal texts alike as texts, and the text it returns stands in its place verbatim. A delayed command is called at each format with the same list, in which each parameter that equals the name of a supplied value is replaced by that value, unchanged in kind. An unregistered command, or an error from the command, is returned as an error (for a delayed command, only when its part is formatted).",
 ['inputs','histories'],'all command names, parameter lists (identifiers, literal texts, empty texts), values, repeated formats with changing values',
 'Tests call file_path with one parameter.',
 [F+'formatter.rs',F+'tree.rs',F+'command.rs'],[('command parts','part_command, Formatter::format_pattern Command'),('parsing','Tree::try_new Command')],['Localiser::format, parameters seen by registered functions'])
p('C16','Command registry: first registration wins; built-ins follow their contract',
 "In every history of registrations and lookups, a command can be looked up exactly if it was registered, always as the function it was first registered with; registering it again is an error that names it and changes nothing; a lookup of an unknown name is an error that names it; the list is exactly the registered names. The built-in article command gives 'an' exactly for text that starts with a, e, i, o or u in either case and otherwise 'a', and the built-in path command gives a path text equal to its parameter on this platform; both report a missing parameter or a parameter that is not text as an error.",
 ['histories','inputs'],'all histories of insert, lookup and list; all parameter lists of the built-in commands',
 'The tests register one command once.',
 [F+'command.rs'],[('registry','CommandRegistry::insert, command, list'),('built-ins','file_path, english_a_or_an')],['CommandRegistry methods, file_path(), english_a_or_an()'])
p('C17','Caching never changes a result',
 "For every history of format, literal and default-changing requests on one localiser, each request gives the same text and language tag, or fails as well, as the same request on a fresh localiser without caching, regardless of which requests cached, of the languages, fallback settings and values used before, and of failed requests. The only exception is a literal request for a string that is cached as a parsed pattern, which may report that instead.",
 ['histories'],'all histories of requests over several components, identifiers, languages, values, fallback and caching flags',
 'Tests issue each request once per localiser.',
 [F+'localiser.rs',F+'formatter.rs'],[('cache','Localiser::actual_format, actual_literal, add_to_cache'),('reused formatter','Formatter::format')],['results of format(), literal(), *_with_defaults()'])
p('C18','Fallback, defaults and the returned language tag',
 "A request gives the string the provider has for the requested language and, exactly if there is none and fallback applies (the argument, else the localiser's default), the string for the default language of the component; the returned tag is the tag of the string that was used, and numbers, dates and plurals follow that language. If no string is found the error names the component, the identifier, the requested tag and whether fallback was used. Requests with defaults equal the same requests with the current default language, fallback and caching spelled out, after any changes of the defaults, each of which changes only what it names.",
 ['inputs','histories'],'all repositories, languages, fallback and caching settings, sequences of changes of the defaults',
 'Tests use a repository of two languages and a single request.',
 [F+'localiser.rs'],[('fallback','Localiser::actual_format, actual_literal'),('defaults','Localiser::defaults, *_with_defaults, default_language')],['format, literal, format_localisation_data, *_with_defaults, default_language'])
p('C19','Nested localisation data is localised inside out',
 "Formatting localisation data is the same as first localising every inner localisation data among its values (recursively, with the same language, fallback and caching) and then formatting the outer string with those texts as its values; data without values is the literal string. All other values pass unchanged, and if any inner one fails the whole request fails.",
 ['inputs'],'all trees of localisation data (depth, breadth, literal leaves, missing strings) x languages, fallback, caching',
 'Tests have at most one nesting of one error.',
 [F+'localiser.rs',U+'types.rs'],[('recursion','Localiser::actual_format_localisation_data')],['format_localisation_data(), format_localisation_data_with_defaults(), format_error()'])
p('C20','The Sqlite3 provider finds the best matching string',
 "For every repository, a request for a string returns the string of exactly the requested tag if there is one, otherwise one whose tag extends the requested tag by whole subtags, otherwise the same for the tag with its last subtag removed, and so on, and nothing if all fail; the returned text and tag are those stored. The all-in-one file is searched completely before the component's own file, only strings of the requested component and identifier count, and an unknown component is an error that names it.",
 ['inputs','configurations'],'all repositories (all-in-one file, component files, both), components, identifiers, languages; all requests',
 'Tests query one shipped repository for three strings.',
 [S+'provider.rs'],[('search','find_strings, query_pattern'),('files','LocalisationProviderSqlite3::try_new, connection')],['LocalisationProviderTrait::string'])
p('C21','Exact and multiple string requests agree with the repository',
 "An exact request returns the stored string of exactly the requested tag, component and identifier, and nothing otherwise. A request for all strings returns, without repetition, every string whose tag equals or extends (by whole subtags) the longest prefix of the requested tag for which there is any, from the all-in-one file or else from the component's own file, and it contains what the request for a single string returns.",
 ['inputs','configurations'],'all repositories and requests',
 'Tests check one exact and one multiple request.',
 [S+'provider.rs'],[('search','string_exact_match, strings, find_strings, query_pattern')],['LocalisationProviderTrait::string_exact_match, strings'])
p('C22','Details of identifiers, components and the repository are true of the data',
 "For every repository, the details report exactly the languages, string counts, ratios to the default language (0 where it has no strings), contributors, default languages, components and totals that the data of the all-in-one file and the component files together contain, for each identifier, component and the repository as a whole; where both files give a component's default language, that of the all-in-one file counts; the repository's default is that of the component application, and without one there is no default and all ratios are 0. Asking repeatedly, in any order, gives the same answers; an unknown component, and a component whose default language is missing or is not one of its languages, is an error.",
 ['inputs','histories','configurations'],'all repositories and all sequences of detail requests',
 'Tests compare a few numbers of one shipped repository.',
 [S+'provider.rs',P+'provider.rs'],[('details','build_cache, identifier_details, component_details, repository_details'),('queries','query_languages, query_count, query_contributors, query_default, query_identifier_languages')],['identifier_details, component_details, repository_details'])
p('C23','Only databases with the documented schema are accepted',
 "A database made by the documented schema (with any contents and additional tables or columns appended) is accepted and its schema version reported. A database that lacks a required table, that has another or a missing schema version, or in one of whose five data tables (component, contributor, language, languageData, pattern) a required column is missing, is at another place, or has another name, type, nullability, key or default, is rejected with an error that names the table and column (or the version), both when verified directly and when a repository with it is opened.",
 ['inputs','fault_sequences'],'all single and multiple deviations from the schema',
 'Tests only open valid databases.',
 [S+'provider.rs',S+'error.rs','crates/provider/sqlite3/l10n/schema.sql'],[('verification','verify_schema, table_exists, last_column_exists, columns_check')],['verify_schema(), LocalisationProviderSqlite3::try_new()'])
p('C24','Damaged repositories give errors, and repositories are never modified',
 "Opening and querying a directory (given by an absolute path) with any content - missing or no directory, no databases, truncated, overwritten or foreign files, wrong value types or malformed tags in rows, files damaged, replaced or removed after opening, other files, subdirectories and names - gives answers or errors, never a panic, abort or hang, and answers about undamaged components stay true; files without the extension sqlite3 and subdirectories are ignored. No request, successful or not, changes the contents or the set of files of the repository (databases that are not in write-ahead-log mode).",
 ['fault_sequences','inputs'],'all damages at all byte positions and rows, before and after opening, and all request sequences on them',
 'Tests open only the shipped, valid repository.',
 [S+'provider.rs'],[('opening','LocalisationProviderSqlite3::try_new, OpenFlags'),('error mapping','find_strings and the other queries')],['results of all provider calls, bytes of the files'])
p('C25','Every error can be localised through the shipped strings',
 "For every error of the library, with any payload, formatting it with the repositories that are shipped with the crates succeeds with fallback in every language and without fallback in the default language en-ZA, and where a translation is shipped the text is the translated one, with the shipped strings formatted. The text names the error type and variant and contains every payload text and number of the error in its role, and errors embedded in errors appear inside it with their own type, variant and payload. The plain display text of an error names the same type and variant (except errors that only carry the message of another library or a plain message) and contains the payload.",
 ['inputs','programs'],'all variants of all error types with all payloads, errors nested in errors, errors returned by real failing calls; all shipped languages',
 'Tests localise three errors.',
 [F+'error.rs',L+'error.rs',P+'error.rs',S+'error.rs',U+'error.rs','crates/localiser/l10n/i18n_localiser.sqlite3','crates/lexer/l10n/i18n_lexer.sqlite3','crates/provider/core/l10n/i18n_provider.sqlite3','crates/provider/sqlite3/l10n/i18n_provider_sqlite3.sqlite3'],[('localisation data','impl LocalisationTrait of the error types'),('shipped strings','l10n/*.sqlite3')],['Localiser::format_error, format_localisation_data, Display'])
p('C26','Script data of a language is that of its script',
 "For every language tag, the script data is that of the script subtag if the tag has one and otherwise of the likely script of the language, so tags with the same (likely) script give the same data; every script of Unicode has data, whose horizontal directions (if any) include the one ICU gives for that script, and a code that is not a script gives none; scripts that are undisputedly in present use or extinct are marked so, and those in present use that are only written horizontally have that direction alone, with lines from top to bottom. The default script data always is that of the current default language, and the line and grapheme directions of a script direction are its two components.",
 ['inputs','histories'],'all language tags, all scripts of the table, all histories of changes of the default language',
 'Tests look at no or one language.',
 [F+'script.rs',F+'localiser.rs',U+'script.rs'],[('table','DataProvider::new'),('likely script','get_script_data'),('directions','ScriptDirection::directions, line, grapheme')],['script_data(), script_data_for_language_tag()'])
p('C27','With the sync feature, shared use from many threads is as good as sequential use',
 "With the cargo feature for thread safety enabled, any number of threads using one language tag registry and one Sqlite3 provider concurrently, in any interleaving, directly or each through a localiser of its own, get exactly the results of sequential use, all spellings of a tag still giving one shared instance, without panic, poisoning or deadlock, and afterwards the lists of the registry and the details are those of sequential use. Sequential use gives the same results with the feature as without it.",
 ['schedules','histories'],'all interleavings of lookups and requests of several threads on shared instances',
 'No test enables the feature or starts a thread.',
 [U+'language.rs',S+'provider.rs'],[('locks','Mutex in LanguageTagRegistry, queries'),('once cells','repository_details, component_details'),('connections per request','connection_sync')],['results of tag(), icu_language(), string(), strings(), *_details() on every thread'])
p('C28','End to end: the localised text is the stored pattern applied to the values',
 "For every Sqlite3 repository, a format request yields exactly the text that results from applying the pattern string the repository holds for the best matching (or default) language to the values by the rules of the pattern language, together with the tag of that string, for any sequence of requests with any mixture of fallback, caching and defaults. Where no string matches or the pattern or a value is unsuitable, it yields an error.",
 ['inputs','histories','configurations'],'all repositories of patterns x languages x values x request sequences',
 'Tests format a handful of strings of one repository.',
 [F+'localiser.rs',F+'formatter.rs',F+'tree.rs',S+'provider.rs'],[('whole pipeline','Localiser::format over LocalisationProviderSqlite3')],['Localiser::format'])
p('C29','Errors point at the faulty element',
 "When a pattern string has exactly one fault, the error identifies it: the offending token and its position in graphemes for a misplaced token or doubled number sign, an abrupt end for a missing end, the name for a repeated placeholder or named string, the keyword, option, option value, selector, branch or placeholder for an invalid or missing one, the command for an unknown or failing one. When a value is missing or unsuitable, the error identifies the placeholder or the kind of pattern.",
 ['inputs'],'all valid patterns x one injected fault of each documented kind at any place',
 'Tests do not look at error contents of faulty patterns.',
 [F+'tree.rs',F+'formatter.rs',F+'error.rs'],[('tree errors','Tree::try_new, TreeError'),('formatter errors','FormatterError')],['error value returned by Localiser::format'])
p('C30','Logging and extended ICU data change no result; extensions of tags are honoured',
 "With the cargo features for extended ICU data (icu_extended) and for logging enabled, and a logger installed at any level, every other guarantee holds unchanged for tags without extensions: tokens, tags, accepted and rejected patterns, formatted texts, cached and fallen-back results, script data of every language, strings and details of every repository, and errors are those of the build without these features, and nothing panics because something is logged. As documented, language tags may then be Unicode locales with extensions: they are accepted, rejected and canonicalised as ICU does, numbers, dates and plural categories honour them as ICU does, and the calendar option of a pattern takes precedence over the calendar of the tag while all its other extensions keep their effect.",
 ['configurations','inputs','histories'],'all inputs and histories of the other properties, and tags with extensions, in the build with these features, at any log level',
 'No test enables these features or installs a logger.',
 [F+'localiser.rs',F+'formatter.rs',F+'tree.rs',S+'provider.rs',U+'language.rs'],[('extended locales','get_script_data; LanguageTagRegistry under icu_extended; calendar option in formatter.rs'),('log records','cfg(feature = "logging") blocks')],['everything the other properties observe'])
p('C31','A failing provider is reported and leaves nothing behind',
 "When the localisation provider reports an error while a request is answered, whether for the requested string, a string needed for a nested value, or the details of a component that give its default language, the request fails with exactly that error: it never gives a text, a not-found result or the string of another language in its place. The requests before and after it are answered as if the failed request had not been made, also when the same request is made again, with and without caching.",
 ['faults','histories'],'all request histories x all sets of provider calls that fail x all provider errors',
 'No test uses a provider that fails, and no test repeats a request after an error.',
 [F+'localiser.rs'],[('lookup and fallback','Localiser::format, literal and their helpers'),('cache','insertion after formatting'),('nested values','format_localisation_data and the values it resolves')],['Localiser::format, literal, *_with_defaults, format_localisation_data on a provider with injected failures'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for d in props: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(props))
