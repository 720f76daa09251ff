"""Grammar properties: engine 2."""
GRAM = "the compiled grammars of the current tree unrolled over symbolic input families into one SAT query each (wrong output at least as cheap as the expected one)"
GNOTE = ("Holds for every member of the families printed in the evidence file; trusted: the reading of the transducers through pynini, the "
         "library's shortest-path search returning a cheapest path (checked by running members of every family through the real code), the SAT solver. ")


def gram(id, title, statement, over, quant, why, files, mech, note):
    prop(id, title, statement, over, quant, why, files, mech, technique=GRAM, note=GNOTE + note)


ZH = ["tn/chinese/normalizer.py", "tn/chinese/rules", "tn/chinese/data", "tn/processor.py", "tn/token_parser.py"]
gram("C16", "Chinese TN reads every number by the rules of the language",
     "A decimal number of 1 to 10 or 12 digits in running Chinese text, with or without sign and decimals, in half- or full-width digits, is read as that number "
     "(二/两, 零 and 十 placed as the standard reading has them), an 11-digit number and every hotline number digit by digit with 幺, and the text around it is unchanged.",
     ["inputs"], "all numbers of these shapes in neutral contexts (no unit, date or decade word beside them)",
     "there are 10^12 numbers; tests read a few dozen", ZH,
     [m("cardinals", "tn/chinese/rules/cardinal.py"), m("path choice", "tn/processor.py tagger_union, RuleSpec weights")],
     "Integers up to 12 digits, decimals 9+3; one neighbour per side.")
gram("C17", "Chinese TN reads percentages, fractions, formulas and codes correctly",
     "Percentages, fractions, arithmetic and comparisons, number ranges, dashed telephone numbers, dotted numbers and tail numbers are read operand by operand "
     "in the standard order, unless the text is a date or clock time, with the text around unchanged.",
     ["inputs"], "all operands of the stated digit counts and all operators", "rule weights compete on each operand pair; tests see a few pairs", ZH,
     [m("fraction, math, cardinal rules", "tn/chinese/rules/fraction.py, math.py, cardinal.py")], "Operands up to 4 digits (thorough 12).")
gram("C18", "Chinese TN reads every date and clock time as that date and time",
     "Every calendar date in the supported notations (year, month and day joined by 年月日, -, / or ., and their ranges) and every clock time (hours, minutes, optional "
     "seconds, am/pm marks, ranges) is read as exactly that date or time, in any neutral context.",
     ["inputs"], "all years, months, days, hours, minutes, seconds, separators and marks", "tests sample some dates; the readings of 2, 0 and 10 depend on each digit", ZH,
     [m("date and time rules", "tn/chinese/rules/date.py, time.py")], "All values of every field.")
gram("C19", "Chinese TN reads every listed unit, currency and score with its number",
     "A number with any listed unit, symbol or currency (in front or behind, ranges, rates such as 100km/h) is read as number and unit name, 2 as 二 or 两 as the unit "
     "demands, the currency after the number, and a score between listed teams as a score.",
     ["inputs"], "every listed unit, currency and team with all numbers of the stated lengths", "the tables have hundreds of entries that interact by prefix; tests try a few", ZH,
     [m("measure, money, sport rules", "tn/chinese/rules/measure.py, money.py, sport.py")], "Numbers up to 4+2 digits (thorough 6+3).")
gram("C20", "Chinese TN leaves other text unchanged except as its options say",
     "Every character that is no digit, operator or listed word passes through unchanged, and remove_interjections, remove_erhua, traditional_to_simple, remove_puncts, "
     "full_to_half and tag_oov each change exactly the characters they name, whatever the other options are.",
     ["inputs", "configurations"], "every Unicode character, alone and beside others, under each option", "Unicode has over a million characters; tests use some dozens", ZH,
     [m("characters and post-processing", "tn/chinese/rules/char.py, postprocessor.py, whitelist.py")], "Strings up to 2 (thorough 4) free characters.")
ZI = ["itn/chinese/inverse_normalizer.py", "itn/chinese/rules", "itn/chinese/data", "tn/processor.py", "tn/token_parser.py"]
gram("C21", "Chinese ITN writes every spoken number as exactly that number",
     "A spoken Chinese number (integer, signed, decimal, approximate such as 七八十, colloquial such as 一百二, digit string of 3, 4, 5, 11 or 18, dotted, or with 三个八) is written "
     "in digits with exactly its value, 万 and 亿 kept as the options say; enable_0_to_9, enable_million and enable_standalone_number do what they say and nothing else.",
     ["inputs", "configurations"], "all numbers up to 12 digits, with 二 or 两, under all number options", "tests read about a hundred numbers with a few option settings", ZI,
     [m("number grammar", "itn/chinese/rules/cardinal.py")], "Up to 7 free digits plus nonzero ones up to 12 (thorough 8).")
gram("C22", "Chinese ITN writes dates, times, fractions, formulas and codes exactly",
     "A spoken date, clock time, fraction, percentage, formula, number ratio or range, licence plate or train number in running text is written in figures with exactly the spoken "
     "values in the standard order, and the text around it is unchanged.",
     ["inputs"], "all dates, times, operands, plates and train numbers", "each digit pattern takes its own path through competing rules", ZI,
     [m("date, time, fraction, math, plate and train rules", "itn/chinese/rules")], "All dates and times; operands up to 3 digits (thorough 5).")
gram("C23", "Chinese ITN writes every measure and amount of money exactly",
     "A spoken number or range with any listed unit, measure word or currency (with 万, 亿 or 兆 in front of the unit, with 每, with 毛 and 分) is written as its figures with exactly that "
     "unit or currency mark; single digits stay in words unless enable_0_to_9.",
     ["inputs", "configurations"], "every listed unit and currency with all numbers of the stated lengths", "the tables have hundreds of entries that interact by prefix", ZI,
     [m("measure and money rules", "itn/chinese/rules/measure.py, money.py")], "Numbers up to 3 digits and 2 decimals (thorough 5).")
gram("C24", "Chinese ITN leaves everything else as it is",
     "Text without spoken numbers or listed words comes back unchanged, character by character, for every Unicode character and option setting (interjections go only with "
     "remove_interjections), and a converted number leaves the characters beside it unchanged.",
     ["inputs", "configurations"], "every Unicode character, alone, in strings, and beside converted text", "Unicode has over a million characters", ZI,
     [m("characters, listed words, post-processing", "itn/chinese/rules/char.py, whitelist.py, postprocessor.py")], "Strings up to 3 (thorough 5) free characters.")
gram("C25", "Every normalizer has a normalization for every text",
     "For every text (any characters except NUL, in any order, with any blanks, quotes and backslashes), normalize of each of the six normalizers returns a normalization: "
     "the text always has a tagging and every cheapest tagging has a verbalization; it never fails on the text.",
     ["inputs", "configurations"], "all strings of Unicode characters up to the stated lengths, alone and in between listed contexts",
     "a text no path accepts makes the library raise; tests only use texts that work",
     ["tn/chinese/normalizer.py", "tn/english/normalizer.py", "tn/japanese/normalizer.py", "itn/chinese/inverse_normalizer.py", "itn/english/inverse_normalizer.py",
      "itn/japanese/inverse_normalizer.py", "tn/processor.py", "tn/token_parser.py"],
     [m("fallback rules (char, word, punctuation)", "tn/*/rules, itn/*/rules"), m("token and blank handling", "*/normalizer.py build_tagger")],
     "Texts up to 4 (English TN) to 10 characters; thorough up to 20.")
EN = ["tn/english/normalizer.py", "tn/english/rules", "tn/english/data", "tn/processor.py", "tn/token_parser.py"]
gram("C26", "English TN reads every number, ordinal, fraction, percentage and amount",
     "An integer (with or without commas and sign), decimal, ordinal, simple or mixed fraction, percentage or amount of money is read as exactly that number in English words "
     "(\"and\" before the last two digits of a cardinal, zeros of decimals and leading zeros as \"oh\", 1000-2999 alone as a year, trailing zeros of amounts dropped, singular or plural currency after the number), "
     "and the text around it is unchanged.",
     ["inputs"], "all numbers of the stated lengths with up to 4 decimals, all listed currencies and vulgar fractions", "the reading depends on each group of digits; tests read a few dozen", EN,
     [m("number rules", "tn/english/rules/cardinal.py, ordinal.py, decimal.py, fraction.py, money.py, measure.py")], "Up to 6 free digits, 11 with listed groups (thorough 12).")
gram("C27", "English TN reads every date, year, clock time and range as exactly that",
     "A date (numeric or with a month name, in any supported order), month, decade, half or quarter year, year with era, clock time (with am/pm and zone, or seconds), weekday range, "
     "range of numbers, years or times, ratio, percentage range or small formula is read as exactly those values in the conventional order, and the text around it is unchanged.",
     ["inputs"], "all days, months and years 1000-2999, all clock times, marks and zones, all operands of the stated lengths",
     "each field pattern takes its own path through competing rules", EN,
     [m("date, time and range rules", "tn/english/rules/date.py, time.py, range.py")], "All field values; operands up to 3 digits.")
JA = ["tn/japanese/normalizer.py", "tn/japanese/rules", "tn/japanese/data", "tn/processor.py", "tn/token_parser.py"]
gram("C28", "English TN reads every measure, phone number, e-mail and address exactly",
     "A number with a unit or rate that has one reading, a telephone number (with country code, area code, extension or service number), e-mail address, web address, social security "
     "number or IP address is read with exactly its digits, letters, marks and unit, and the text around it is unchanged.",
     ["inputs"], "all numbers with every listed unit, all digits of every phone shape, all names of the stated lengths",
     "hundreds of units interact by prefix and case; tests read a few dozen", EN,
     [m("measure, telephone and electronic rules", "tn/english/rules/measure.py, telephone.py, electronic.py")],
     "Numbers up to 3 digits (thorough 5), units that have one reading; names up to 3 free characters.")
gram("C29", "English TN leaves plain words as they are and spells codes exactly",
     "Words, punctuation and any other character are unchanged; the listed words read as listed; initials and codes that mix letters and digits are spelled with exactly their letters and numbers, "
     "whatever stands around them.",
     ["inputs"], "all words of the stated lengths, every Unicode character, every listed word, all codes", "each fallback path competes with every other rule", EN,
     [m("words, listed words, codes, punctuation", "tn/english/rules/word.py, whitelist.py, serial.py, punctuation.py")],
     "Words up to 4 free letters; codes up to 3 letters and 3 digits.")
gram("C30", "Japanese TN reads every number, date, time, amount and measure exactly",
     "An integer, decimal, fraction, percentage, date, clock time, ratio, range, score, formula, amount of money or measure in Japanese text is read as exactly that value (千, 万, 億 and 兆 places, "
     "with the unit or currency as listed), and the characters around it are unchanged.",
     ["inputs", "configurations"], "all numbers of the stated lengths, all dates and times, all listed units and currencies", "the reading depends on every digit's place; tests read a few dozen", JA,
     [m("number rules", "tn/japanese/rules/cardinal.py, date.py, time.py, fraction.py, math.py, measure.py, money.py")],
     "Up to 8 free digits (longer with listed groups); all dates and times; every listed unit and currency.")
gram("C31", "Japanese TN leaves everything else as it is, according to its options",
     "Japanese text without numbers or listed words comes back unchanged for every Unicode character and option setting, except for exactly what the options ask: full-width forms to half "
     "width, punctuation removed, characters without a reading tagged, listed names transliterated; listed words read as listed and the text beside a reading is unchanged.",
     ["inputs", "configurations"], "every Unicode character, alone, in strings, and beside readings, under all option settings", "Unicode has over a million characters", JA,
     [m("characters, listed words, post-processing", "tn/japanese/rules/char.py, whitelist.py, transliteration.py, preprocessor.py, postprocessor.py")],
     "Strings up to 3 free characters.")
JI = ["itn/japanese/inverse_normalizer.py", "itn/japanese/rules", "itn/japanese/data", "tn/processor.py", "tn/token_parser.py"]
gram("C32", "Japanese ITN writes every number, date, time, amount and measure exactly",
     "A spoken Japanese number (with 千, 万, 億, 兆, sign, decimals, digit by digit), fraction, percentage, formula, range, ratio, date, era year, clock time, measure or amount of money is "
     "written in figures with exactly its value and its listed unit or currency, and the text around it is unchanged; the options do what they say and nothing else.",
     ["inputs", "configurations"], "all numbers of the stated lengths, all dates and times, all listed units and currencies, under all number options",
     "the figures depend on each spoken place; tests try a few hundred numbers", JI,
     [m("number rules", "itn/japanese/rules/cardinal.py, date.py, time.py, fraction.py, math.py, measure.py, money.py")],
     "Up to 8 digits (more with 億 and 兆), 5 spoken digits (thorough 8), operands up to 4 digits.")
gram("C33", "Japanese ITN leaves everything else as it is",
     "Japanese text without spoken numbers or listed words comes back unchanged, character by character, for every Unicode character and option setting (full_to_half changes only full-width "
     "forms), and a converted number leaves the characters beside it unchanged.",
     ["inputs", "configurations"], "every Unicode character, alone, in strings, and beside converted text", "Unicode has over a million characters", JI,
     [m("characters, listed words, post-processing", "itn/japanese/rules/char.py, whitelist.py, postprocessor.py")], "Strings up to 3 free characters.")
EI = ["itn/english/inverse_normalizer.py", "itn/english/rules", "itn/english/data", "tn/processor.py", "tn/token_parser.py"]
gram("C34", "English ITN writes every number, ordinal, measure and amount exactly",
     "A spoken English number (hundred, thousand, million and more, minus, point, optional 'and' behind hundred or thousand), ordinal, decimal with a quantity, measure or amount of money is "
     "written as exactly that number with its ending, unit or currency sign; several numbers in one sentence stay apart and the words around them are unchanged.",
     ["inputs"], "all numbers of the stated magnitudes, all ordinals, units and currencies", "the space is far beyond tests, and the rules' weights compete on each number", EI,
     [m("number, measure and money rules", "itn/english/rules/cardinal.py, ordinal.py, decimal.py, measure.py, money.py")],
     "Magnitudes and digit counts as printed.")
gram("C35", "English ITN writes every date, year and clock time exactly",
     "A spoken English date, year, decade or era year, and every clock time (o'clock, digits, half past, quarter to, minutes past or to, with or without a.m./p.m. and time zone) is written "
     "as exactly that date or time, with the words around it unchanged.",
     ["inputs"], "all days, months, years, decades, hours, minutes, marks and zones", "tests sample a few dates and times; the twelve-hour wrap and the padding depend on each value", EI,
     [m("date and time rules", "itn/english/rules/date.py, time.py")], "All values of every field.")
gram("C36", "English ITN writes every phone number, code and address exactly",
     "Spoken digit strings are written as the phone, card or social security number, IP address, serial code, e-mail or web address they spell, every digit and letter in its place, with the "
     "words around unchanged.",
     ["inputs"], "all digit strings of the listed lengths, letters and address words", "there are 10^10 phone numbers and the rules for digits, years, times and codes compete", EI,
     [m("telephone and electronic rules", "itn/english/rules/telephone.py, electronic.py")], "Lengths as printed.")
gram("C37", "English ITN leaves everything else as it is",
     "English text without spoken numbers or listed words comes back unchanged except that runs of blanks become one, for every word and every Unicode character; listed words are written as "
     "listed, and the words and characters beside converted text are unchanged.",
     ["inputs"], "all words of bounded length, every Unicode character, alone and beside converted text", "tests see a handful of plain sentences", EI,
     [m("words, marks, listed words", "itn/english/rules/word.py, char.py, punctuation.py, whitelist.py")], "Words up to 5 free letters, 3 free characters.")
