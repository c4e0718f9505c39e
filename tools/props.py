#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and harness/meta.json."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, rule, note,
         assumptions=(), observe=("return value of the public API",)):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, rule=rule, note=note, assumptions=list(assumptions),
                  observe=list(observe)))


COMMON = ["The Go compiler, the standard library (time, regexp) and rapid's generator are trusted.",
          "The generated domain excludes the ambiguous texts listed in DESIGN.md (\"What is left out\")."]

prop("P01", "Any text and configuration gives a date or an error, in bounded time",
     "For every text, format list, language selection and configuration, each public parsing and searching function returns without panicking or hanging. "
     "It returns either a date that carries a time and (for localized parsing) a locale, or an error together with an empty date, never both and never neither. "
     "Every search result has a text that is not empty and a date. "
     "A text without any part of a date (punctuation, unknown words) gives an error. The cost of a call grows about linearly with the length of the text.",
     ["inputs", "configurations"], "all byte strings (grammar-derived, mutated, multilingual, invalid UTF-8), all public functions, all configurations",
     "Unit tests feed a few hundred well-formed strings; robustness against arbitrary user text is a claim over all strings.",
     ["parser.go", "root.go", "search.go", "internal/language", "internal/parser"],
     [("Parse / Search entry points", "parser.go, search.go"), ("tokenizing and translation", "internal/language/split.go, translate.go, translate-search.go"), ("custom format parser", "internal/parser/formatted/parser.go")],
     "grammar-based and mutational fuzzing with a crash, hang and result-contract oracle",
     "the text has a digit or a word that some locale knows", "Random search: sampled texts only. A hang is a single case that takes over 150 s of processor time.", COMMON)

prop("P02", "Complete English dates are parsed to exactly the date they name",
     "A date in English with day, month and year, in any of the usual layouts (ISO, month name, numeric, ordinal, with or without weekday), optionally with a clock time, is parsed to exactly that wall clock with the period Day. "
     "The parts that are present never depend on the current time or the preferences for missing parts. "
     "A day that doesn't exist in the month and year written in the text gives an error instead of another date.",
     ["inputs", "configurations"], "every calendar day of years 1000-9999 in more than 20 layouts, with and without time of day, for every value of the preferences and current time",
     "The suite samples about a hundred dates; day, month, year and layout combinations are unbounded and mistakes show only for some of them.",
     ["internal/parser/absolute/parser.go", "internal/parser/absolute/root.go", "internal/parser/common/time.go", "internal/parser/tokenizer/tokenizer.go", "internal/language/translate.go"],
     [("tokens to date components", "internal/parser/absolute/parser.go Init, parseDigitToken, parseLetterToken"), ("date validity", "internal/parser/absolute/root.go createDateTime"), ("clock", "internal/parser/common/time.go ParseTime")],
     "property-based round trip: format a generated date, parse it back",
     "every generated date counts", "Exploration by seeded random generation and shrinking; no proof.", COMMON)

prop("P03", "Numeric dates follow the date order: configured, else that of the locale",
     "A numeric date whose parts are ambiguous is read in the order given by the configured date order when that is valid, else in the order of the locale that parses it. "
     "This holds for every locale and all six orders, with the separators / - . and space, for four and two digit years. "
     "An invalid configured order is ignored.",
     ["inputs", "configurations"], "all locales that are known, six date orders in any letter case, generated days and separators",
     "Tests try a few locales with a few dates; there are hundreds of locales whose order comes from data.",
     ["parser.go", "internal/parser/absolute/parser.go", "internal/data"],
     [("order selection", "parser.go Parse, validateDateOrder"), ("number directives", "internal/parser/absolute/parser.go parseDigitToken"), ("order of a locale", "internal/data/*.go DateOrder")],
     "property-based testing against a reference reader of ordered numbers, differential over locales",
     "day and month differ, so another order gives another date", "The reference orders of the locales are a snapshot of the reviewed data taken when the check was built.",
     COMMON + ["The snapshot in harness/data of the locale's date orders is right."])

prop("P04", "Month and weekday names of every locale are understood in that locale",
     "A date written with a month or weekday name (long or short form) of any supported locale, with or without clock time, is parsed to the same date as its English equivalent when that locale or language is selected. "
     "This includes the regional variants of a language, which inherit the names of their parent. "
     "The result is labeled with the locale that was selected.",
     ["inputs", "configurations"], "every name in every locale (enumerated), and generated dates with those names",
     "The suite has some examples for about a quarter of the locales; the vocabulary has tens of thousands of entries.",
     ["internal/data", "internal/language/translate.go", "internal/language/split.go", "internal/language/simplify.go"],
     [("dictionary", "internal/data/*.go Translations"), ("word splitting", "internal/language/split.go"), ("translation", "internal/language/translate.go")],
     "exhaustive enumeration of the vocabulary plus property-based generation of dates, oracle: the English date",
     "every date with a localized name counts", "The reference vocabulary is a reviewed snapshot of the locale data; the ambiguous names in DESIGN.md are excluded.",
     COMMON + ["The snapshot in harness/data of the names is right."])

prop("P05", "Relative English dates equal the calendar arithmetic on the current time",
     "A relative date in English (such as \"N units ago\", \"in N units\", \"N units from now\", yesterday, tomorrow, last or next unit, several amounts, fractions, with or without a clock) is parsed to the current time moved by exactly those amounts. "
     "Moving by months, years and decades keeps the day of month; a day that the target month lacks carries over into the next month, or becomes the last day of the target month when end-of-month preservation is asked. "
     "The clock changes only if the unit is an hour or less or a clock is in the text, and the period is that of the finest unit (no finer than a day unless time periods are asked).",
     ["inputs", "configurations"], "amounts and units in all combinations, every current time (leap days, month ends, DST changes), all related settings",
     "Tests use a fixed current time; calendar clamping, leap days and overflows depend on it.",
     ["internal/parser/relative/parser.go", "internal/dateutil/dateutil.go"],
     [("relative arithmetic", "internal/parser/relative/parser.go"), ("English simplifications", "internal/data/00*.go en")],
     "property-based testing against an independent calendar model (days since epoch, civil calendar)",
     "the amount is not zero", "Model and code share only Go's zone database.", COMMON)

prop("P06", "Localized relative phrases mean the same as their English equivalent",
     "A relative phrase of any supported locale (today, yesterday, next month, \"N units ago\", \"in N units\", as listed by the locale) is parsed, when that locale is selected, to the same date as the English phrase it stands for. "
     "This holds for every amount and current time, in the regional variants of a language too, and with a clock before or after a phrase of days or more, which replaces the time.",
     ["inputs", "configurations"], "every relative phrase and pattern of every locale (enumerated), with generated amounts, clocks and current times",
     "The suite has some phrases for some locales; each locale has dozens of phrases and patterns.",
     ["internal/data", "internal/language/translate.go", "internal/parser/relative/parser.go"],
     [("relative phrases", "internal/data/*.go RelativeType, RelativeTypeRegexes"), ("relative translation", "internal/language/translate.go")],
     "exhaustive enumeration of phrases plus property-based amounts, oracle: calendar model of the English meaning",
     "every phrase counts", "The reference phrases are a reviewed snapshot of the locale data.",
     COMMON + ["The snapshot in harness/data of the phrases is right."])

prop("P07", "Missing parts are filled from the current time and the preferences",
     "When a date lacks its day, month or year, the missing year comes from the current time, the missing month and day from the current time or from the first or last one as preferred, and the parts that are written are kept. "
     "The day never goes beyond the last day of the resulting month, and a leap day without a year gets a leap year. "
     "The period tells the finest part that was written, or the precision of the clock when asked.",
     ["inputs", "configurations"], "every set of missing parts, every preference, generated current times and clocks",
     "The interplay between written parts, preferences and the current day (31st, leap day) is a product that tests sample at few points.",
     ["internal/parser/absolute/parser.go", "internal/parser/common"],
     [("correction for day and month", "internal/parser/common/apply-day.go, apply-month.go"), ("leap year", "internal/parser/common/leap-year.go"), ("period", "internal/parser/absolute/parser.go getPeriod")],
     "property-based testing against a reference model of incomplete dates",
     "at least one part is missing", "Exploration by seeded random generation.", COMMON)

prop("P08", "Incomplete dates honor the preference for past or future",
     "When the past is preferred, a date without year, a time alone or a two-digit year resolves to the closest matching time that is not after the current time; when the future is preferred, to the closest one that is not before, comparing them as instants in the timezone of the result. "
     "A weekday alone resolves to the last or next day with that name, which is never today. "
     "With the default preference the current period is used, and complete dates are never moved.",
     ["inputs", "configurations"], "all incomplete forms, both preferences, generated current times that include the same day and moment, current time's and configured timezones",
     "Boundary cases (now equal to the candidate, leap days, year ends, timezones) depend on the current time, which tests fix.",
     ["internal/parser/absolute/parser.go"],
     [("correction for time frame", "internal/parser/absolute/parser.go correctForTimeFrame")],
     "property-based testing against a reference model plus an order invariant on the result",
     "the form is incomplete, so the preference can matter", "Exploration by seeded random generation.", COMMON)

prop("P09", "Strict parsing and required parts reject exactly the incomplete dates",
     "With strict parsing, an absolute date is accepted only if day, month and year are all written; with required parts, only if each of those parts is written. "
     "A rejected date gives an error and an empty date, and an accepted one gives the same result as without the restriction.",
     ["inputs", "configurations"], "all sets of written parts, all sets of required parts (any letter case), strict on and off",
     "Acceptance is a claim over all subsets of parts and layouts.",
     ["internal/parser/common/strict-check.go", "internal/parser/absolute/parser.go", "parser.go", "config.go"],
     [("strict check", "internal/parser/common/strict-check.go")],
     "property-based testing: metamorphic relation between restricted and unrestricted parsing, plus model of which parts are written",
     "strict parsing or at least one required part is set", "Exploration by seeded random generation.", COMMON)

prop("P10", "A timezone written in the text sets the zone and keeps the wall clock",
     "A date followed by a known timezone abbreviation or a numeric UTC offset is parsed to the written wall clock in exactly that offset, whatever the default timezone and the zone of the current time are. "
     "A relative date with a timezone is computed on the current time converted to that zone. "
     "Extracting a timezone from a text gives its name and offset and the text without it, and leaves a text without timezone untouched.",
     ["inputs", "configurations"], "every abbreviation in the table (enumerated), every numeric offset in each notation, generated dates, current times and default timezones",
     "There are about 400 abbreviations and hundreds of offsets whose patterns overlap; tests try a few dozens.",
     ["internal/timezone", "parser.go", "root.go", "internal/parser/relative/parser.go"],
     [("pop timezone", "internal/timezone/parser.go PopTzOffset"), ("apply timezone", "parser.go applyTimezone"), ("table", "internal/timezone")],
     "exhaustive enumeration of the timezone table plus property-based dates",
     "every text with a timezone counts", "The offsets are a snapshot of the reviewed table. Names with a caron are a known finding.",
     COMMON + ["The snapshot in harness/data of the timezone table is right."])

exec(open(os.path.join(ROOT, "tools", "props2.py")).read())

TIER = {}
BUILT = {"P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10"} | globals().get("BUILT2", set())


def main():
    built = [p for p in P if p["id"] in BUILT]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in built:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    checks = [{
        "property": p["id"],
        "quick_cmd": "python3 run.py %s quick" % p["id"],
        "thorough_cmd": "python3 run.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in built]
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": [],
                   "notes": "No hooks in /repo: every check drives the public API of a build of /repo's working tree."}, f, indent=1, ensure_ascii=False)
        f.write("\n")
    with open(os.path.join(ROOT, "harness", "meta.json"), "w") as f:
        json.dump({p["id"]: {"rule": p["rule"], "assumptions": p["assumptions"]} for p in built}, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
