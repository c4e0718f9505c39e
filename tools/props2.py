BUILT2 = {"P01", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24", "P25", "P26", "P27", "P28", "P29", "P30", "P31"}
EXPL = "Exploration by seeded random generation and shrinking; no proof."

prop("P11", "A date without timezone is in the default zone, else that of the current time",
     "When the text has no timezone, the result is in the configured default timezone, else in the timezone of the configured current time, and its wall clock is the written one whatever those zones are. "
     "This holds for absolute dates, custom formats, dates without spaces, and Jalali and Hijri dates. "
     "Relative times of hours or less, and now, name the same moment whatever the default timezone is, and are shown in its clock.",
     ["inputs", "configurations"], "every kind of date text, pairs of default timezone and zone of the current time, generated days and clock times including those around clock changes",
     "The zone is applied at different places for each kind of text; the suite mostly runs in UTC.",
     ["parser.go", "internal/parser/absolute/parser.go", "internal/parser/formatted/parser.go", "internal/parser/nospace/parser.go", "internal/parser/relative/parser.go", "internal/parser/jalali", "internal/parser/hijri", "internal/dateutil"],
     [("apply timezone", "parser.go applyTimezone"), ("wall clock in location", "internal/dateutil InLocation"), ("relative base", "internal/parser/relative/parser.go")],
     "property-based testing: expected wall clock and offset computed with the standard time package, metamorphic relation over default timezones",
     "the zone of the current time or the default timezone isn't UTC", EXPL, COMMON + ["The tz database of the Go toolchain is right."])

prop("P12", "Unix timestamps are exact instants",
     "A text with exactly 10, 13 or 16 digits is the instant that many seconds, milliseconds or microseconds after 1970, shown in the configured timezone; a leading minus on the 10 digit form names an instant before 1970. "
     "A fraction after the digits is dropped. Other lengths, and digits inside of other text, are not read as a timestamp. "
     "Each timestamp parser only accepts its own sign.",
     ["inputs", "configurations"], "all ten digit numbers, all digit counts, signs, fractions, default timezones",
     "The range of instants is huge; tests try a handful of recent ones.",
     ["internal/parser/timestamp", "parser.go"],
     [("timestamp parser", "internal/parser/timestamp")],
     "property-based round trip from instant to digits and back, with near-miss texts as negative cases",
     "the text is a timestamp or differs from one in a single detail", EXPL, COMMON)

prop("P13", "Digit-only dates follow the date order and don't invent parts",
     "A text of 8 digits is a calendar date read in the configured or locale date order when that is possible, else as year, month, day. With 12 or 14 digits it also has hours, minutes and seconds, colons in the clock being optional. "
     "The result is exactly that wall clock with the period Day, strict parsing accepts it, and digits that no reading turns to an existing date are rejected by the parser of dates without spaces.",
     ["inputs", "configurations"], "all days of 1000-9999 in all orders, all clock times, digit strings that are no date",
     "The reading depends on the combination of order and digits; tests try a few strings.",
     ["internal/parser/nospace/parser.go", "parser.go"],
     [("dates without spaces", "internal/parser/nospace/parser.go")],
     "property-based testing against a reference reader of digit strings",
     "every digit string counts", EXPL, COMMON)

prop("P14", "Custom formats give exactly the written parts",
     "A text that matches one of the custom layouts is parsed by the first layout that matches, with exactly the written parts, also when month and weekday names are written in a language that is selected. "
     "A missing year comes from the current time (or a leap year for a written February 29), and missing month and day follow the preferences. The period is Year without a month, Month without a day and Day else. "
     "An offset in the text wins over the default timezone. Layouts that don't match have no effect on the result.",
     ["inputs", "configurations"], "generated layouts of standard elements in any order, generated dates, several layouts at once, preferences, zones, localized names",
     "Layouts and dates combine without bound; the suite has a few layouts.",
     ["internal/parser/formatted/parser.go", "parser.go"],
     [("custom format parser", "internal/parser/formatted/parser.go")],
     "property-based round trip: a generated date is written with a generated layout by the standard time package and parsed back; reference model of missing parts",
     "every text written with a layout counts", EXPL, COMMON)

prop("P15", "Locales are selected as configured",
     "Parsing with several locales, several languages (optionally with a region), or all of them gives the first success among the single-locale parses of the selected locales, tried in the documented order: the given order when requested, else by popularity. "
     "The result is labeled with that locale, which is always one of the allowed ones. Duplicates don't matter. "
     "Unknown or contradicting names give an error. A detection function is only used when neither locales nor languages are configured. Default languages are tried only after all others failed. "
     "A name is reported as a known locale exactly when parsing accepts it.",
     ["inputs", "configurations"], "generated lists of locales, languages and regions, dates in any locale, all known and mutated names",
     "The selection works on sets of hundreds of locales, with several options that interact.",
     ["parser.go", "internal/language/loader.go", "internal/language/languages.go", "config.go", "root.go"],
     [("locale loading", "internal/language/loader.go GetLocales"), ("applicable locales", "parser.go getApplicableLocales"), ("known locale", "root.go IsKnownLocale")],
     "model-based property testing: the selection is compared with an independent model over single-locale parses",
     "at least two locales are selected, or the selection must fail", EXPL, COMMON + ["The snapshot in harness/data of locale names and popularity order is right."])

prop("P16", "Previously successful locales go first when that is enabled",
     "With TryPreviousLocales, a parser tries the locales of its own previous successful parses first, as long as the current configuration allows them, and behaves as usual otherwise. "
     "A failed parse, another parser, or a parser without this option leave no trace.",
     ["histories", "configurations"], "generated sequences of parses on one parser, with changing languages, locales and texts that are ambiguous between languages",
     "The effect depends on the history of calls; the suite has one such sequence.",
     ["parser.go", "config.go"],
     [("used locales", "parser.go saveUsedLocale, getApplicableLocales")],
     "stateful model-based property testing over call histories",
     "at least one previous success exists that could change the result", EXPL, COMMON)

prop("P17", "Search gives only what is in the text, in one allowed language",
     "Searching gives the detected language, which is one of those allowed by the configuration (or the default language), and the same results as searching in that language directly. "
     "Every result has a date, is labeled with that language, and has a text that occurs in the input. A text without dates gives no results. "
     "Paragraphs are independent when the current time is set. Strict parsing and required parts drop incomplete dates from the results. "
     "Unknown languages and locales give an error.",
     ["inputs", "configurations"], "texts mixed from dates and words of any language, allowed languages by locales, languages or detection function, strictness, numbers of paragraphs",
     "The suite compares some dozens of fixed texts; soundness is a claim for every text.",
     ["search.go", "internal/language/detector.go", "internal/language/translate-search.go", "internal/language/split.go"],
     [("search", "search.go Search, SearchWithLanguage, parseFoundObjects"), ("language detection", "internal/language/detector.go"), ("chunks of text", "internal/language/translate-search.go")],
     "property-based testing: invariants of the results, differential between Search and SearchWithLanguage, metamorphic relation between a text and its paragraphs",
     "the search has results, or the configuration is refused", EXPL, COMMON)

prop("P18", "Search finds the dates planted in a text",
     "Dates that are surrounded by words without a meaning are all found, in the order of the text, each with exactly its text and its date as if it was parsed alone. "
     "This holds for absolute and relative dates in English and absolute dates in other languages, in the date order of the language or the configured one, and for dates and clocks in the written forms of a locale (long and full, with the weekday), also in brackets, quotes, and in front of a colon, semicolon or comma. "
     "Without a current time, relative dates count from the previous absolute date. "
     "Among allowed languages with different scripts, the language of the text is detected.",
     ["inputs", "configurations"], "generated dates in many layouts, number of dates, surrounding words and punctuation, all languages with spaces between words",
     "Completeness of extraction depends on the neighbourhood of each date; tests have few texts.",
     ["search.go", "internal/language/translate-search.go", "internal/language/split.go", "internal/language/detector.go"],
     [("search", "search.go parseFoundObjects, parseEntry, getRelativeBase"), ("chunks of text", "internal/language/translate-search.go")],
     "property-based testing with planted dates as the ground truth",
     "at least one date is planted", EXPL, COMMON)

prop("P19", "Jalali dates are converted and completed in their own calendar",
     "A complete Jalali date gives the same day in the Gregorian calendar, whether it is written with numbers in the configured date order (day, month, year by default), or with Persian names and ordinals, with or without the weekday and the time, in Latin, Persian or Arabic digits. "
     "A day beyond the end of the month is limited to its last day. Two digits years go to 1361-1460. "
     "Missing parts come from the current date in the Jalali calendar or follow the preferences, and a preferred direction moves the date by Jalali years, months being kept. "
     "The wall clock is put in the default timezone, or else the one of the current time. The period tells the smallest date part (or the time, when asked).",
     ["inputs", "configurations"], "generated Jalali dates of years 1000-3170 in all written forms, dates with missing parts around generated current times, preferences, zones",
     "The calendar has irregular leap years, and missing parts depend on the current date in that calendar; the suite has some dozens of dates.",
     ["internal/parser/jalali/parser.go", "internal/parser/jalali/data.go", "internal/parser/absolute/parser.go", "root.go"],
     [("Jalali parser", "internal/parser/jalali/parser.go Parse, createDateTime"), ("missing parts", "internal/parser/absolute/parser.go setPreferredParts, correctOtherCalendar")],
     "property-based testing against an independent implementation of the calendar and a reference model of missing parts",
     "every Jalali date counts", EXPL, COMMON + ["The leap year cycles of Borkowski are the ones to use outside the years that are known."])

prop("P20", "Hijri dates are converted and completed in their own calendar",
     "A complete Hijri date of the years 1356-1500 gives the same day in the Gregorian calendar by the Umm al-Qura calendar, in the configured date order (day, month, year by default), with or without the time, in Latin, Arabic or Persian digits. "
     "A day beyond the end of the month is limited to its last day. Two digits years go to 1390-1489. Dates out of these years give an error. "
     "Missing parts come from the current date in the Hijri calendar or follow the preferences, and a preferred direction moves the date by Hijri years. "
     "The wall clock is put in the default timezone, or else the one of the current time. The period tells the smallest date part (or the time, when asked).",
     ["inputs", "configurations"], "generated Hijri dates of all years in scope, out of scope years, dates with missing parts around generated current times, preferences, zones",
     "The length of every month comes from a table, and missing parts depend on the current date in that calendar; the suite has few dates.",
     ["internal/parser/hijri/parser.go", "internal/parser/absolute/parser.go", "root.go"],
     [("Hijri parser", "internal/parser/hijri/parser.go Parse, createDateTime"), ("missing parts", "internal/parser/absolute/parser.go setPreferredParts, correctOtherCalendar")],
     "property-based testing against the published table of the calendar and a reference model of missing parts",
     "every Hijri date counts", EXPL, COMMON + ["The table of month lengths in harness/data is right."])

prop("P21", "How the same text is encoded or cased makes no difference",
     "A text gives the same result when its digits are written in another script's decimal digits (or in several), its spaces by other kinds of space, its letters in another case or Unicode normal form or in full width, its apostrophes by look-alikes, and with invisible direction marks, punctuation or spaces around it. "
     "This holds for absolute, relative, numeric, timestamp and Jalali texts of all locales, and for the dates of a search (where only timezones in upper case count).",
     ["inputs", "configurations"], "texts of all locales and kinds, all decimal digits of Unicode, spaces, case, normal forms, marks",
     "The pairs of equal texts are endless and every parser normalizes at another place; tests use a few of them.",
     ["internal/strutil", "internal/parser/jalali", "internal/parser/timestamp", "internal/language", "search.go"],
     [("sanitizing and normalizing", "internal/strutil"), ("translation", "internal/language/translate.go")],
     "metamorphic property-based testing: respelled texts give the same result",
     "the texts differ and give a date", EXPL, COMMON)

prop("P22", "A call leaves its arguments alone and can be repeated",
     "No call modifies the configuration, its lists (including their spare capacity), the list of formats, or the parser types of the parser. The same call gives the same result again, also after the caller changed the lists it passed before. "
     "A clone of a configuration has equal fields, gives the same results, and shares nothing that can be changed with the original.",
     ["inputs", "configurations", "histories"], "generated calls of all functions, all configuration fields, lists with spare capacity",
     "A write to an argument is invisible to tests that build a new configuration for every call.",
     ["config.go", "parser.go", "search.go", "jalali-parser.go", "hijri-parser.go"],
     [("copy of the configuration", "config.go Clone, initiate")],
     "property-based testing: deep image of the arguments before and after, repetition, clone as invariant",
     "the call gives a date", EXPL, COMMON)

prop("P23", "A result only depends on the arguments of its call",
     "With a given current time, a call gives the same result on a fresh parser, on a parser that made any other calls before (in any order and with any other configurations), by the functions of the package, and in a process with another timezone, language and runtime settings. "
     "Without a current time, relative dates count from the real clock, whatever was called before. Exceptions are TryPreviousLocales, whose purpose is to depend on earlier calls, and the clock in which a timestamp is shown, which is the local one.",
     ["histories", "inputs", "configurations"], "generated sequences of calls on one parser, in both orders, and in child processes",
     "Parsers have caches and a list of used locales; leaks between calls show only for particular sequences of configurations.",
     ["parser.go", "search.go", "root.go", "internal/language", "internal/data"],
     [("state of the parser", "parser.go Parser"), ("caches", "internal/language/loader.go")],
     "stateful property-based testing: every call of a generated history against the same call alone, and against other processes",
     "at least one (histories: two) of the calls gives a date", EXPL, COMMON)

prop("P24", "Concurrent calls give the results of calls done alone",
     "Goroutines can call all functions at the same time, on one shared parser, on own parsers or by the functions of the package: every call gives the same result as alone, without any data race.",
     ["schedules", "inputs", "configurations"], "generated calls spread over goroutines, first calls of a process included, on an instrumented build",
     "Data races depend on the schedule; the suite is sequential.",
     ["parser.go", "root.go", "search.go", "internal/language", "internal/data", "internal/timezone"],
     [("lock of the parser", "parser.go Parse"), ("shared caches", "internal/language")],
     "property-based concurrency testing: generated schedules on a build with Go's race detector, compared with sequential results",
     "one of the calls gives a date", EXPL + " Schedules are those that the Go scheduler happens to make; the race detector finds unordered accesses in them.", COMMON)

prop("P25", "Both regular expression engines give the same results",
     "A build with the tag re2_wasm (RE2 by WebAssembly) gives the same result for every call as a default build.",
     ["inputs", "configurations"], "generated calls of all functions",
     "The engines can differ in any of the several thousands of patterns, and in how they treat bytes that aren't UTF-8; the suite samples few of them.",
     ["internal/regexp", "internal/data", "internal/language", "internal/timezone"],
     [("engine facade", "internal/regexp/regexp.go, regexp-re2.go")],
     "differential property-based testing between two builds of the library",
     "one of the calls gives a date", EXPL, COMMON)

prop("P26", "Words for the halves of the day work with the clock in every locale",
     "In every locale, its words for am and pm after a 12-hour clock, or in front of one with minutes, give the hour on the 24-hour clock: 12 am is midnight, 12 pm is noon, other pm hours are twelve hours later. "
     "This holds with hours only, minutes and seconds, before or after the date, with or without a space, in any case, and beside month names of the locale. "
     "The period is Day, or Hour, Minute or Second by the last written part when ReturnTimeAsPeriod is set.",
     ["inputs", "configurations"], "all words of all locales for am and pm, clocks, dates, forms",
     "There are thousands of words and each locale has its own order of tokens; tests use few of them.",
     ["internal/language/translate.go", "internal/language/split.go", "internal/parser/absolute", "internal/parser/common", "internal/data"],
     [("translation of words", "internal/language/translate.go"), ("clock", "internal/parser/absolute/parser.go, internal/parser/common")],
     "property-based testing: generated clock written by words of the locale, its value on the 24-hour clock is the oracle; exhaustive over the words",
     "every clock counts", EXPL, COMMON + ["The snapshot in harness/data of the words is right."])

prop("P27", "Only the selected parsers take part, in the selected order",
     "With a list of parser types, the result is that of the first listed type that parses the text alone (locale by locale); types that aren't listed have no effect, whatever the text and the other options are. "
     "No list means all types in the documented order. (Custom formats given to a call are always tried first, on the text as it is.) Unknown types, and options out of their range, are refused with an error in every function, before any parsing.",
     ["inputs", "configurations"], "lists of parser types with repetitions, texts of all kinds, all options in and out of their range",
     "The subsets and orders of types times the kinds of text; the suite uses a few single ones.",
     ["parser.go", "config.go"],
     [("selection of parsers", "parser.go Parse, parseDate"), ("validation", "config.go validate")],
     "model-based property testing: decomposition into parses with a single type; validation model",
     "a date is given, or the configuration is refused", EXPL, COMMON)

prop("P28", "Words to skip have no effect on the date",
     "Adding words that are configured to be skipped, or words that the locale skips, between the words of a date text gives the same result as the text without them, in every locale and for every kind of date: numeric, with names, relative. "
     "Words that are neither known nor to be skipped make the parse fail.",
     ["inputs", "configurations"], "texts of all locales and kinds, configured and built-in words to skip, their number and places",
     "Texts, words and places combine without bound; the suite has a few phrases.",
     ["internal/language/translate.go", "internal/language/split.go", "internal/data", "parser.go"],
     [("skipped tokens", "internal/language/split.go Split, findMatchingKnownWord"), ("configured words", "config.go SkipTokens")],
     "metamorphic property-based testing: texts with and without the words to skip",
     "the text gives a date", EXPL, COMMON + ["The snapshot in harness/data of the words is right."])

prop("P29", "Words for year and hour beside a date or clock don't change it",
     "A complete date whose last part is the year, followed by the word of the locale for year, and a clock followed by its word for hour, give the same result as without these words, in every locale. "
     "They are not taken for a duration.",
     ["inputs", "configurations"], "all words of all locales for year and hour, dates in the order of the locale with all separators or month names, clocks",
     "The words are different in every locale and compete with the relative parser; the suite has a few.",
     ["internal/parser/relative/parser.go", "internal/language/translate.go", "internal/data"],
     [("relative parser", "internal/parser/relative/parser.go parseDate"), ("translation of words", "internal/language/translate.go")],
     "metamorphic property-based testing: texts with and without the words; exhaustive over the words",
     "the text gives a date", EXPL, COMMON + ["The snapshot in harness/data of the words is right."])

prop("P30", "Dates in the standard written forms of a locale are read as written",
     "A date in the way a locale usually writes it (the long, full and medium forms of CLDR, with or without a clock, in the digits of the locale, and its forms of month and day, and of month and year), gives exactly that date, whatever the preferences for missing parts, if the library knows every word of it in that meaning. "
     "The number beside a month without a year is the day, except where the locale's date order puts the year first and no word for day follows.",
     ["inputs", "configurations"], "the forms of 490 locales from CLDR with their words and digits, dates from 1600 to 2400, all preferences",
     "There are thousands of forms; the suite has a few dozen languages with a handful of dates each.",
     ["internal/language", "internal/data", "internal/parser/absolute", "internal/parser/relative"],
     [("translation of words", "internal/language/translate.go Translate"), ("meaning of the parts", "internal/parser/absolute/parser.go"), ("words of the locales", "internal/data")],
     "property-based testing against an independent formatter: dates written by CLDR patterns are read back; exhaustive over forms and months",
     "a date was written in the form", EXPL, COMMON + ["The recorded CLDR forms in harness/data/forms.json are right."])

prop("P31", "Amounts written in words mean the number, noon and midnight the clock",
     "In a relative phrase with an amount, the word for the number in a language that has number words (one to twelve in English, German, French, Russian, Ukrainian, some in others) means the same as the digits, in any letter case, unless the word is also another one (the French seven and September). "
     "So do the phrases with an amount that is not a number (half an hour, half a year, one and a half, a couple of, a dual such as two years in Hebrew, a bare unit such as a week ago in Russian or Slovak, from now, later, less than a minute ago, which is 45 seconds): they are the amount they say, before or after now. "
     "The words for noon and midnight are 12:00 and 0:00, of today or of the date in front of them.",
     ["inputs", "configurations"], "every relative phrase of every locale of the languages with number words × every such word; a table of 180 spoken phrases in their locales; moments from 1800 to 2200",
     "There are a hundred thousand combinations of phrase, word and locale, and the words are found by an ordered list of replacements that can break each other; the suite samples a few.",
     ["internal/language", "internal/data", "data-supplementary", "internal/parser/relative"],
     [("replacements", "internal/language/translate.go Simplify"), ("number words and phrases", "internal/data Simplifications"), ("meaning of the amounts", "internal/parser/relative/parser.go")],
     "property-based testing with an independent table of number words and phrases and reference arithmetic for the amounts; exhaustive over phrases × words",
     "the phrase has one meaning in its locale and an amount or clock was checked", EXPL, COMMON + ["The tables of words and phrases in harness/p31.go and harness/data/numwords.json are right."])
