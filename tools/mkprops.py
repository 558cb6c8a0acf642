#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements live here so that they are easy to edit and review)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}
    d.update(kw)
    P.append(d)

NOINT = "The integration tests that call it through a compiled ST program cannot even be built here and sample a few values; "

p("C01", "SR and RS keep their state and resolve conflicts by their dominant input",
  "SR outputs TRUE whenever SET is TRUE, otherwise FALSE whenever RESET is TRUE, otherwise its previous output. RS outputs FALSE whenever RESET is TRUE, otherwise TRUE whenever SET is TRUE, otherwise its previous output. Neither call changes its inputs, and the rule holds at every call of every sequence of calls.",
  ["histories", "inputs"], "all input values from every reachable instance state, hence every call history",
  NOINT + "a truth table is sampled over a fixed call order and nothing forces the memory case in every history.",
  ["src/bistable_functionblocks.rs", "iec61131-st/bistable_functionblocks.st"],
  [("SR", "src/bistable_functionblocks.rs: SR"), ("RS", "src/bistable_functionblocks.rs: RS")])

p("C02", "R_TRIG and F_TRIG fire exactly once per edge of their input",
  "R_TRIG outputs TRUE in exactly those calls whose CLK is TRUE while CLK was FALSE in the previous call of the same instance, and F_TRIG in exactly those whose CLK is FALSE while it was TRUE in the previous call. A fresh instance behaves as if CLK had been FALSE before its first call. Instances do not influence each other.",
  ["histories"], "every sequence of CLK values (one step from an arbitrary instance state, plus histories of up to 6 calls from a fresh instance)",
  NOINT + "the unit tests of the edge helper walk three fixed sequences.",
  ["src/flanks.rs", "src/utils.rs"],
  [("R_TRIG", "src/flanks.rs: R_TRIG"), ("F_TRIG", "src/flanks.rs: F_TRIG"), ("Signal", "src/utils.rs: Signal::rising_edge, Signal::falling_edge")])

p("C03", "Counters count edges only, saturate, obey reset/load, and flag their limits",
  "In every call of every CTU, CTD and CTUD variant: R (CTU, CTUD) sets CV to 0, else LD (CTD, CTUD) sets CV to PV, else a rising edge of CU adds one and a rising edge of CD subtracts one, except that CV never passes the limits of its type and simultaneous rising edges of CU and CD change nothing. An edge is judged against the input's value in the last call that was neither a reset nor a load. After every call Q/QU is (CV >= PV) for up-counting and Q/QD is (CV <= 0) for down-counting, with CV compared as the declared type, and PV and the control inputs are left unchanged.",
  ["histories", "inputs"], "every combination of inputs, PV, CV and edge memory for all 18 counter blocks (i16, i32, u32, i64, u64), hence every call history; plus bounded histories from a fresh instance",
  NOINT + "they count to 3; saturation at the type limits of 32/64-bit counters and arbitrary interleavings of reset, load and edges are out of their reach.",
  ["src/counters.rs", "src/utils.rs", "iec61131-st/counters.st"],
  [("ctu", "src/counters.rs: ctu and CTU*"), ("ctd", "src/counters.rs: ctd and CTD*"), ("ctud", "src/counters.rs: ctud and CTUD*")])

p("C04", "TON delays the rising edge by PT and drops at once",
  "Whenever IN is FALSE, TON (and TON_TIME, TON_LTIME) outputs Q = FALSE and ET = 0. While IN stays TRUE since the call that saw it rise, ET is the smaller of PT, as each call gives it, and the time elapsed since that call, and Q is TRUE exactly when the elapsed time is greater than PT. PT and IN are never modified and no call fails, whatever the call times.",
  ["histories", "schedules"], "every non-decreasing sequence of clock readings, every non-negative PT (constant while the timer runs, and a different one with every call of one run) and every IN sequence of up to 4 calls (thorough: 5) from a fresh, i.e. zero-initialised, instance",
  NOINT + "they use a mock clock with a handful of millisecond steps; which call lands just before, at or after expiry is a schedule no test enumerates.",
  ["src/timers.rs", "iec61131-st/timers.st"],
  [("TON", "src/timers.rs: TON, TON_TIME, TON_LTIME"), ("elapsed time", "src/timers.rs: TimerParams::update_elapsed_time, is_in_preset_range")])

p("C05", "TOF holds its output for PT after the falling edge",
  "Whenever IN is TRUE, TOF (and TOF_TIME, TOF_LTIME) outputs Q = TRUE, and ET = 0 from the call that sees IN rise. After the call that sees IN fall, Q stays TRUE while the time elapsed since that call is at most PT and is FALSE afterwards until IN rises again, and ET is the smaller of PT and that elapsed time. A fresh instance that never saw IN TRUE outputs Q = FALSE and ET = 0; PT and IN are never modified and no call fails.",
  ["histories", "schedules"], "every non-decreasing sequence of clock readings, every non-negative PT (constant while the timer runs, and a different one with every call of one run) and every IN sequence of up to 4 calls (thorough: 5) from a fresh, i.e. zero-initialised, instance",
  NOINT + "they use a mock clock with a handful of millisecond steps; re-triggering during the hold time at arbitrary instants is a schedule no test enumerates.",
  ["src/timers.rs", "iec61131-st/timers.st"],
  [("TOF", "src/timers.rs: TOF, TOF_TIME, TOF_LTIME")])

p("C06", "TP emits one pulse of length PT per trigger and never fails",
  "A rising edge of IN while no pulse is active starts a pulse in TP (and TP_TIME, TP_LTIME): Q is TRUE from that call for as long as the time elapsed since it is at most PT, whatever IN does meanwhile, and Q is FALSE afterwards until the next rising edge of IN. ET is the smaller of PT and the elapsed time from the start of a pulse until the pulse has expired and IN is FALSE, and then 0. With IN FALSE and no pulse active the outputs are Q = FALSE, ET = 0, and no call ever fails.",
  ["histories", "schedules"], "every non-decreasing sequence of clock readings, every non-negative PT (constant while the timer runs, and a different one with every call of one run) and every IN sequence of up to 4 calls (thorough: 5) from a fresh, i.e. zero-initialised, instance",
  NOINT + "they follow one diagram; calls with IN FALSE on an idle timer, or IN falling during the pulse, are never made.",
  ["src/timers.rs", "iec61131-st/timers.st"],
  [("TP", "src/timers.rs: TP, TP_TIME, TP_LTIME")])

p("C07", "Shifts zero-fill and rotates wrap for every operand and every count",
  "SHL and SHR on BYTE, WORD, DWORD and LWORD move every bit by N places and fill with zeros, so that for N of at least the operand's width the result is 0. ROL and ROR move every bit circularly, so that only N modulo the width matters, no bit is lost and ROR undoes ROL. No value of the operand or of N makes a call fail.",
  ["inputs"], "every operand and every 32-bit count, all 16 functions",
  NOINT + "they shift by 1 to 4; counts at or beyond the width are not tried.",
  ["src/bit_shift_functions.rs", "iec61131-st/bit_shift_functions.st"],
  [("SHL/SHR", "src/bit_shift_functions.rs: SHL__*, SHR__*"), ("ROL/ROR", "src/bit_shift_functions.rs: ROL__*, ROR__*")])

p("C08", "Endianness conversions reverse or keep all bytes and are inverses",
  "For every value of every supported type, TO_BIG_ENDIAN and FROM_LITTLE_ENDIAN exchange little-endian with big-endian representation (on a little-endian machine: exact byte reversal), TO_LITTLE_ENDIAN and FROM_BIG_ENDIAN return the native little-endian representation unchanged on a little-endian machine. Applying the same conversion twice returns the original value bit for bit, for REAL and LREAL as far as the value is not a NaN.",
  ["inputs"], "every value of the 15 supported types (REAL/LREAL: every bit pattern)",
  NOINT + "one value per type.",
  ["src/endianness_conversion_functions.rs", "iec61131-st/endianness_conversion_functions.st"],
  [("conversions", "src/endianness_conversion_functions.rs: define_endianness_for_int_types, *__REAL, *__LREAL")])

p("C09", "REAL/DWORD and LREAL/LWORD reinterpretation preserves every bit",
  "REAL_TO_DWORD and LREAL_TO_LWORD return the IEEE-754 bit pattern of their argument, and DWORD_TO_REAL and LWORD_TO_LREAL return the number that has the given bit pattern. The round trip from a bit pattern to a number and back is the identity, including signed zeros, infinities and subnormals.",
  ["inputs"], "all 2^32 and 2^64 bit patterns",
  NOINT + "one value per function.",
  ["src/bit_num_conversion.rs"],
  [("reinterpretation", "src/bit_num_conversion.rs: LWORD_TO_LREAL, DWORD_TO_REAL, LREAL_TO_LWORD, REAL_TO_DWORD")])

p("C10", "MAX, MIN and LIMIT select the right operand for every type",
  "MAX and MIN of one or more operands return one of the operands, and no operand is greater (respectively smaller) than the result in the order of the declared type; REAL and LREAL operands that are NaN are ignored as long as another operand is a number. LIMIT(MN, IN, MX) returns MN if IN is below MN, else MX if IN is above MX, else IN. Operands are not modified.",
  ["inputs"], "every operand value for all 21 type variants, argument lists of 1 to 4 operands (thorough: 6)",
  NOINT + "a few literals per type; ties, negative values, NaN, signed zeros and values at type limits are not covered.",
  ["src/types.rs", "iec61131-st/selectors.st"],
  [("MAX/MIN", "src/types.rs: define_order_type, define_float_type"), ("LIMIT", "src/types.rs: limit")])

p("C11", "IS_VALID and IS_VALID_BCD classify every bit pattern correctly",
  "IS_VALID is TRUE for a REAL or LREAL exactly when it is neither NaN nor infinite. IS_VALID_BCD is TRUE for a BYTE, WORD, DWORD or LWORD exactly when each of its 4-bit digits is at most 9. No input makes a call fail.",
  ["inputs"], "all bit patterns of the six types",
  NOINT + "a few values per type.",
  ["src/validation_functions.rs"],
  [("IS_VALID", "src/validation_functions.rs: IS_VALID__*"), ("IS_VALID_BCD", "src/validation_functions.rs: is_valid_bcd")])

p("C12", "ROUND returns the nearest integer, halves away from zero",
  "For every finite REAL or LREAL x, ROUND(x) is an integer-valued number whose distance from x is at most one half, and a value exactly halfway between two integers is rounded away from zero. The sign is kept (also for results of zero), infinities are returned unchanged and NaN gives NaN.",
  ["inputs"], "all 2^32 and 2^64 bit patterns",
  NOINT + "two values.",
  ["src/numerical_functions.rs", "iec61131-st/numerical_functions.st"],
  [("ROUND", "src/numerical_functions.rs: ROUND__REAL, ROUND__LREAL")])

p("C13", "Numerical functions compute the operation they are named after",
  "For REAL and LREAL each of SQRT, LN, LOG, EXP, SIN, COS, TAN, ASIN, ACOS, ATAN, ATAN2 and EXPT returns the result of the platform's operation of that name in the argument's own precision: LOG is base 10, LN base e, angles are radians, ATAN2(Y, X) takes its operands in that order and EXPT(base, exponent) in that one. The exponent keeps its value when its type differs from the base's (an LREAL exponent of a REAL base is rounded to REAL). The exported constants PI, PI/2, PI/4 and E are the correctly rounded values.",
  ["inputs"], "every argument value, with the platform's elementary functions treated as uninterpreted functions",
  NOINT + "a couple of easy arguments per function, where swapped operands, a wrong base or a lost precision often go unnoticed.",
  ["src/arithmetic_functions.rs", "iec61131-st/arithmetic_functions.st"],
  [("elementary functions", "src/arithmetic_functions.rs"), ("constants", "src/arithmetic_functions.rs: PI_LREAL ... E_LREAL")])

p("C14", "LEN, LEFT, RIGHT and MID work on characters and return exact substrings",
  "For every valid STRING or WSTRING, LEN is its number of characters (code points). For every admissible length and position, LEFT, RIGHT and MID deliver exactly the requested characters, unsplit and in order, followed by a terminator.",
  ["inputs"], "every well-formed STRING of up to 6 bytes and WSTRING of up to 4 units (thorough: 8 and 6), and single-byte STRINGs / one-unit WSTRINGs of 20 characters; every admissible length and position",
  "The unit tests use a dozen hand-written strings; mixed 1- to 4-byte characters and surrogate pairs at every position with every length are not covered.",
  ["src/string_functions.rs"],
  [("LEN", "src/string_functions.rs: LEN__*"), ("LEFT/RIGHT/MID", "src/string_functions.rs: LEFT_EXT__*, RIGHT_EXT__*, MID_EXT__*"), ("decode/encode", "src/string_functions.rs: CharsDecoder, CharsEncoder")])

p("C15", "INSERT, DELETE, REPLACE and CONCAT produce exactly the edited string",
  "For all valid STRING or WSTRING operands and all admissible positions and counts (in characters), INSERT yields the first P characters of the base, the inserted text, and the rest; DELETE removes exactly L characters beginning with the P-th; REPLACE does the same and puts the replacement in their place. CONCAT yields its arguments one after the other in order, for any number of arguments. Each result is followed by a terminator.",
  ["inputs"], "every pair of well-formed operands of up to 3+2 bytes / units (thorough: 4+3), CONCAT of 1 to 3 (thorough 4) operands, plus longer single-byte operands; every admissible position and count",
  "The unit tests use about two examples per function; boundaries (empty operand, position 0 or end, multi-byte neighbours) are not covered systematically.",
  ["src/string_functions.rs"],
  [("INSERT/DELETE/REPLACE", "src/string_functions.rs: INSERT_EXT__*, DELETE_EXT__*, REPLACE_EXT__*"), ("CONCAT", "src/string_functions.rs: CONCAT__*, CONCAT_EXT__*")])

p("C16", "Out-of-range lengths, counts and positions are rejected, never applied",
  "A call of LEFT, RIGHT, MID, INSERT, DELETE or REPLACE whose length or count is negative, whose position lies outside the string (1..length; 0..length for INSERT), or which asks for more characters than remain from the position does not return a result: it fails with a panic. This holds for every 32-bit argument and in every build profile, and such a call writes nothing to the destination.",
  ["inputs", "configurations"], "every inadmissible combination of 32-bit arguments with every well-formed operand of up to 3 bytes / units (thorough: 5); release semantics (overflow checks off)",
  "The unit tests try one bad argument per function, in the debug profile only.",
  ["src/string_functions.rs"],
  [("range checks", "src/string_functions.rs: LEFT_EXT__*, RIGHT_EXT__*, MID_EXT__*, INSERT_EXT__*, DELETE_EXT__*, REPLACE_EXT__*")])

p("C17", "FIND returns the first occurrence as a 1-based character index",
  "For all valid operands of the same kind, FIND returns the smallest 1-based character position at which the second operand occurs in the first. It returns 0 if and only if it does not occur or either operand is empty.",
  ["inputs"], "every pair of well-formed STRINGs of up to 5 and 3 bytes, WSTRINGs of up to 4 and 2 units (thorough: 6/3 and 5/3), plus longer single-byte operands",
  "Five examples in the unit tests; self-overlapping patterns and matches behind multi-byte characters are not covered systematically.",
  ["src/string_functions.rs"],
  [("FIND", "src/string_functions.rs: FIND__STRING, FIND__WSTRING")])

p("C18", "String comparisons are a total order and the chain forms test neighbours",
  "For STRING and WSTRING, EQ, NE, LT, LE, GT and GE of two operands agree with lexicographic comparison of their code units up to the terminator, a proper prefix being smaller; so exactly one of LT, EQ, GT holds and LE, GE, NE follow from them. With more than two operands EQ, LT, LE, GT and GE are TRUE exactly when the relation holds between each operand and the next. Fewer than two operands are rejected with a panic.",
  ["inputs"], "every pair of operands of up to 3 units (thorough: 6), every chain of 3 or 4 operands of up to 1 unit, operands of 300 units that differ in one place, arbitrary non-zero code units including bytes of at least 0x80; every argument count below 2",
  "The unit tests compare a few ASCII words.",
  ["src/string_functions.rs"],
  [("compare", "src/string_functions.rs: compare, EQ__* LT__* LE__* GT__* GE__* NE__*")])

p("C19", "String functions touch nothing but the result and its terminator",
  "Every STRING and WSTRING function (LEFT, RIGHT, MID, INSERT, DELETE, REPLACE, CONCAT and the STRING/WSTRING conversions) writes exactly the result's code units and one terminator to the destination and leaves the rest of the destination and all source strings unchanged. None of these, nor LEN, FIND or a comparison, reads beyond the terminator of a source string or outside the argument list.",
  ["inputs"], "well-formed operands of up to 2 characters of any encoded length (thorough: 4) in buffers that end at the terminator, texts of 90 and 300 characters; every byte of the destination's surroundings; every admissible position and count",
  "Tests look at the text of the result in an oversized zeroed buffer; out-of-bounds accesses and missing terminators are invisible there.",
  ["src/string_functions.rs", "src/string_conversion.rs"],
  [("encode", "src/string_functions.rs: CharsEncoder"), ("ptr_to_slice", "src/string_functions.rs: get_null_terminated_len, ptr_to_slice"), ("STRING_TO_WSTRING", "src/string_conversion.rs: STRING_TO_WSTRING_EXT")])

p("C20", "STRING/WSTRING conversion preserves text and always terminates it",
  "STRING_TO_WSTRING and WSTRING_TO_STRING deliver the same sequence of characters in the other encoding followed by a terminator, so converting valid text there and back is the identity. WSTRING_TO_STRING turns each unpaired surrogate into U+FFFD instead of failing.",
  ["inputs"], "every valid STRING of up to 3 characters (thorough: 5), selected lengths from 79 to 300, and every sequence of up to 3 non-zero UTF-16 units (thorough: 5), into destinations with arbitrary previous contents",
  NOINT + "two or three strings into zero-initialised destinations.",
  ["src/string_conversion.rs", "src/string_functions.rs"],
  [("conversion", "src/string_conversion.rs: WSTRING_TO_STRING_EXT, STRING_TO_WSTRING_EXT")])

p("C21", "CHAR and WCHAR conversions preserve every ASCII character",
  "CHAR_TO_WCHAR maps each of the 256 CHAR values to the WCHAR with the same code, and WCHAR_TO_CHAR maps each ASCII WCHAR to the CHAR with the same code. WCHAR_TO_CHAR never returns an ASCII character for a non-ASCII WCHAR and never fails, also for lone surrogates.",
  ["inputs"], "all 2^8 and 2^16 values",
  NOINT + "one character each.",
  ["src/string_conversion.rs"],
  [("CHAR", "src/string_conversion.rs: WCHAR_TO_CHAR, CHAR_TO_WCHAR")])

p("C22", "Integer to STRING conversion is exact decimal text, terminated",
  "BYTE_TO_STRING, LWORD_TO_STRING and LINT_TO_STRING write the shortest decimal representation of their argument (a minus sign only for negative numbers, no leading zeros) followed by a terminator, whatever the destination contained before. Different values give different texts and reading the text back gives the value.",
  ["inputs"], "every 8-bit value; every 64-bit value",
  "One value per function, into a zeroed buffer.",
  ["src/extra_functions.rs"],
  [("*_TO_STRING", "src/extra_functions.rs: BYTE_TO_STRING_EXT, LWORD_TO_STRING_EXT, LINT_TO_STRING_EXT")])

p("C23", "STRING to integer conversion honours radix prefixes and rejects the rest",
  "STRING_TO_LINT and STRING_TO_DINT return the number denoted by their text: an optional sign and digits, decimal unless one of the prefixes 16#, 0x, 0X (hexadecimal, either case of letter), 8# (octal), 2#, 0b, 0B (binary) stands before them. Text that denotes no number or a number outside the target type makes the call fail with a panic instead of returning a value.",
  ["inputs"], "every byte string of up to 5 bytes (thorough: 8); longer numbers of each radix, up to and beyond the limits of the type; longer texts with one byte that is no digit",
  "A dozen literals; overflow at the exact type limits, empty digits, stray characters at every place are not covered.",
  ["src/extra_functions.rs"],
  [("string_to_int", "src/extra_functions.rs: string_to_int, STRING_TO_LINT, STRING_TO_DINT")])

p("C24", "TIME_TO_STRING writes a duration that adds up to the input",
  "TIME_TO_STRING writes the non-zero components of the duration in the order d, h, m, s, ms, us, ns as unsigned numbers below 24, 60, 60, 1000, 1000 and 1000 for h to ns, with a leading minus sign for a negative duration, so that their sum is exactly the input; a zero duration is written as 0ns. The text is terminated, whatever the destination contained before, and nothing outside the 81-byte destination is touched.",
  ["inputs"], "every 64-bit TIME value",
  "One positive value into a zeroed buffer.",
  ["src/extra_functions.rs"],
  [("TIME_TO_STRING", "src/extra_functions.rs: TIME_TO_STRING_EXT, parse_timestamp")])

p("C25", "DATE, TOD and DT to STRING give the calendar date and time of day, terminated",
  "DATE_TO_STRING writes YYYY-MM-DD, TOD_TO_STRING hh:mm:ss with, if not zero, a fraction of 3, 6 or 9 digits, and DT_TO_STRING both joined by a hyphen, for the proleptic Gregorian date and UTC time of day of the given nanosecond count since 1970-01-01. The text is terminated, whatever the destination contained before.",
  ["inputs"], "every 64-bit nanosecond count",
  "One value per function, into a zeroed buffer.",
  ["src/extra_functions.rs"],
  [("*_TO_STRING", "src/extra_functions.rs: DT_TO_STRING_EXT, DATE_TO_STRING_EXT, TOD_TO_STRING_EXT")])

p("C26", "REAL and LREAL to STRING never fail, fit the buffer and are terminated",
  "REAL_TO_STRING and LREAL_TO_STRING return for every number, write at most 80 characters and a terminator into the 81-byte destination whatever it contained before, and write nothing outside it. Fixed notation with six decimals is used for magnitudes below 1e6 (REAL) or 1e14 (LREAL), exponent notation with six decimals otherwise.",
  ["inputs"], "every LREAL bit pattern",
  "Four values; large negative magnitudes are not tried.",
  ["src/extra_functions.rs"],
  [("*_TO_STRING", "src/extra_functions.rs: LREAL_TO_STRING_EXT, REAL_TO_STRING_EXT")])

p("C27", "STRING to REAL/LREAL conversion is correctly rounded and rejects other text",
  "STRING_TO_REAL and STRING_TO_LREAL return the representable number nearest to the decimal number their text denotes (of two equally near ones the even one). Text that denotes no number makes the call fail with a panic.",
  ["inputs"], "every byte string of up to 5 bytes (thorough: 7); longer decimal numbers with point and exponent, within stated bounds",
  "Two literals; malformed texts, exponents, and numbers next to the middle between two neighbours are not covered.",
  ["src/extra_functions.rs"],
  [("string_to_float", "src/extra_functions.rs: string_to_float")])

p("C28", "Adding and subtracting times and dates is exact or fails",
  "ADD_TIME, ADD_TOD_TIME, ADD_DT_TIME, SUB_TIME, SUB_DATE_DATE, SUB_TOD_TIME, SUB_TOD_TOD, SUB_DT_TIME and SUB_DT_DT return the exact sum or difference of their operands to the nanosecond whenever it fits 64 bits. Whenever it does not fit, the call fails with a panic instead of returning a wrapped value, in every build profile.",
  ["inputs", "configurations"], "every pair of 64-bit operands, all 9 functions",
  NOINT + "one or two ordinary dates and one overflow per function.",
  ["src/date_time_numeric_functions.rs"],
  [("ADD_*/SUB_*", "src/date_time_numeric_functions.rs: ADD_TIME ... SUB_DT_DT")])

p("C29", "Multiplying and dividing TIME by integers is exact or fails",
  "Each MUL and DIV of a TIME/LTIME by a SINT, INT, DINT, LINT, USINT, UINT, UDINT or ULINT returns the exact product, or the quotient truncated towards zero, whenever the operands and the result fit 64-bit signed integers. Otherwise (overflow, division by zero, a factor above the signed 64-bit range) the call fails with a panic in every build profile instead of returning a wrong value.",
  ["inputs", "configurations"], "every operand pair of all 48 functions",
  NOINT + "one or two small factors per function.",
  ["src/date_time_numeric_functions.rs"],
  [("MUL/DIV", "src/date_time_numeric_functions.rs: checked_mul_time_with_*_int, checked_div_time_by_*_int and their callers")])

p("C30", "MUL and DIV of TIME by REAL/LREAL keep signs and detect overflow",
  "MUL and DIV of a TIME/LTIME by a REAL or LREAL have the magnitude that the platform's duration scaling gives for the operands' magnitudes and are negative exactly when the operands' signs differ and the result is not zero. NaN factors, division by zero and results beyond 64 bits fail with a panic in every build profile.",
  ["inputs", "configurations"], "every TIME and every REAL/LREAL bit pattern, with the platform's floating-point duration scaling as the reference for magnitudes",
  NOINT + "a few factors such as 1.5 and -1.0.",
  ["src/date_time_numeric_functions.rs"],
  [("MUL/DIV by REAL", "src/date_time_numeric_functions.rs: checked_mul_time_with_f32/f64, checked_div_time_by_f32/f64")])

p("C31", "DT splits into DATE and TOD without loss and recombines",
  "For every DT, DATE_AND_TIME_TO_TIME_OF_DAY is the non-negative time since the last midnight (less than 24 h) and DATE_AND_TIME_TO_DATE is the DT of that midnight, for instants before 1970 as well as after it; if that midnight is not representable the call fails with a panic. CONCAT_DATE_TOD of the two parts gives the original DT back, and for arbitrary operands it combines the day of the first with the time of day of the second.",
  ["inputs"], "every 64-bit DT (CONCAT_DATE_TOD: every pair)",
  NOINT + "two modern dates; negative instants and instants next to midnight are not covered.",
  ["src/date_time_conversion.rs", "src/date_time_extra_functions.rs"],
  [("DT split", "src/date_time_conversion.rs"), ("CONCAT_DATE_TOD", "src/date_time_extra_functions.rs: CONCAT_DATE_TOD")])

p("C32", "CONCAT_DATE and CONCAT_TOD accept exactly the valid fields and are exact",
  "Each CONCAT_DATE variant returns midnight of the given year, month and day when that is a date of the proleptic Gregorian calendar representable as DATE, and each CONCAT_TOD variant returns the time of day for hour 0..23, minute 0..59, second 0..59 and millisecond 0..999. Every other combination of operand values, negative and 64-bit ones included, fails with a panic instead of being truncated to a different date or time.",
  ["inputs"], "every operand value of all 6 + 8 variants",
  NOINT + "one date and one time per variant.",
  ["src/date_time_extra_functions.rs"],
  [("CONCAT_DATE", "src/date_time_extra_functions.rs: concat_date and CONCAT_DATE__*"), ("CONCAT_TOD", "src/date_time_extra_functions.rs: concat_tod and CONCAT_TOD__*")])

p("C33", "SPLIT_DATE, SPLIT_TOD and SPLIT_DT return the fields that CONCAT takes",
  "Each SPLIT_DATE variant returns year, month and day, each SPLIT_TOD variant hour, minute, second and millisecond and each SPLIT_DT variant all seven, of the proleptic Gregorian date and UTC time of day of its argument, each field in its own output, milliseconds truncated. Splitting what CONCAT_DATE or CONCAT_TOD built returns the fields it was built from.",
  ["inputs"], "every 64-bit argument of all 18 variants",
  NOINT + "one date per variant.",
  ["src/date_time_extra_functions.rs"],
  [("SPLIT", "src/date_time_extra_functions.rs: SPLIT_DATE__*, SPLIT_TOD__*, SPLIT_DT__*")])

p("C34", "DAY_OF_WEEK follows the calendar for every date",
  "DAY_OF_WEEK returns 0 for Sunday to 6 for Saturday of the day its argument lies in. 1970-01-01 is 4, every instant of a day gives the same number and the next day gives the next number modulo 7, before 1970 as well as after it.",
  ["inputs"], "every 64-bit argument",
  NOINT + "a few dates of one week.",
  ["src/date_time_extra_functions.rs"],
  [("DAY_OF_WEEK", "src/date_time_extra_functions.rs: DAY_OF_WEEK")])

p("C35", "TIME returns the nanoseconds since local midnight of the clock's instant",
  "TIME returns the number of nanoseconds between the last local midnight and the instant that the system clock reports, hence a value from 0 up to 24 h (leap seconds aside), and it fails for no clock reading.",
  ["inputs", "schedules"], "every clock reading from 1970 to 2243 to the nanosecond, and every constant offset from UTC below 24 h",
  "The test uses a mock clock with a constant nanosecond part.",
  ["src/extra_functions.rs"],
  [("TIME", "src/extra_functions.rs: TIME")])

ST = "The tests that compile ST programs cannot be built here, and "
p("C36", "ST numeric and bit-string conversions preserve every representable value",
  "Each *_TO_* conversion between numbers, bit strings, BOOL and characters that is written in ST returns its argument's value whenever the target type can represent it; REAL and LREAL are rounded to the nearest integer (halves away from zero), integers to the nearest REAL or LREAL. Conversions between bit strings keep the low bits (zeroes above), those between a bit string and the integer of the same width keep the bit pattern. A bit string becomes the BOOL of its lowest bit, DINT and LINT become TRUE when not zero.",
  ["inputs"], "every argument value of every conversion in num_conversion.st, bit_conversion.st and bit_num_conversion.st, and LINT_TO_BOOL and DINT_TO_BOOL",
  ST + "they sample one value per conversion.",
  ["iec61131-st/num_conversion.st", "iec61131-st/bit_conversion.st", "iec61131-st/bit_num_conversion.st", "iec61131-st/extra_functions.st", "src/num_conversion.rs", "src/bit_num_conversion.rs"],
  [("conversions", "iec61131-st/num_conversion.st"), ("bit strings", "iec61131-st/bit_conversion.st, iec61131-st/bit_num_conversion.st"), ("BOOL", "iec61131-st/extra_functions.st: LINT_TO_BOOL, DINT_TO_BOOL")])

p("C37", "ABS, TRUNC and EXPT with an integer exponent are right for every type",
  "ABS of a SINT, INT, DINT or LINT is its absolute value (except for the smallest value, which has none), ABS of a REAL or LREAL clears the sign bit. TRUNC of a REAL or LREAL drops the fraction whenever the result fits LINT. EXPT of a REAL or LREAL with an exponent of type SINT, INT, DINT, LINT, USINT, UINT, UDINT or ULINT is the power with exactly that exponent.",
  ["inputs"], "every operand (EXPT: the result is the Rust half's power for the exponent's value, which C13 relates to the platform's)",
  ST + "they sample one value per overload.",
  ["iec61131-st/numerical_functions.st", "iec61131-st/arithmetic_functions.st", "iec61131-st/extra_functions.st", "src/numerical_functions.rs", "src/arithmetic_functions.rs"],
  [("ABS", "iec61131-st/numerical_functions.st: ABS__*"), ("EXPT", "iec61131-st/arithmetic_functions.st: EXPT__*"), ("TRUNC", "iec61131-st/extra_functions.st: TRUNC__*")])

p("C38", "ST date and time functions name the operation that they perform",
  "The ST functions ADD_LTIME, ADD_LTOD_LTIME, ADD_LDT_LTIME, SUB_LTIME, SUB_LDATE_LDATE, SUB_LTOD_LTIME, SUB_LTOD_LTOD, SUB_LDT_LTIME, SUB_LDT_LDT and the overloads of ADD and SUB give the exact sum or difference of their operands in that order, or fail with a panic when it does not fit 64 bits. CONCAT_LTOD, CONCAT_DT, CONCAT_LDT and CONCAT_DATE_LTOD build the instant of exactly the given fields and fail with a panic for fields that do not exist, SPLIT_LTOD and SPLIT_LDT return each field of their argument in its own output. LDT_TO_LTOD, LDT_TO_TOD, DT_TO_LTOD, DT_TO_TOD, LDT_TO_DATE, DT_TO_DATE return the time of day and the midnight of their argument.",
  ["inputs"], "every operand of the sums, and every field and instant of the others",
  ST + "they sample one or two values per function (SPLIT_LDT is not called at all).",
  ["iec61131-st/date_time_numeric_functions.st", "iec61131-st/date_time_extra_functions.st", "iec61131-st/date_time_conversion.st", "src/date_time_numeric_functions.rs", "src/date_time_extra_functions.rs", "src/date_time_conversion.rs"],
  [("sums", "iec61131-st/date_time_numeric_functions.st"), ("CONCAT and SPLIT", "iec61131-st/date_time_extra_functions.st"), ("parts of a DT", "iec61131-st/date_time_conversion.st")])

p("C39", "Conversions between date/time types and numbers keep the nanosecond count",
  "Converting a TIME, DATE, TOD or DT (or its L-variant) to LINT, ULINT or LWORD, converting back, and converting between a type and its L-variant all keep the 64-bit count of nanoseconds unchanged. TIME and LTIME to LREAL give the LREAL nearest to the count, and LREAL to TIME or LTIME the nearest count (halves away from zero) whenever it fits.",
  ["inputs"], "every argument value",
  ST + "they sample one value per conversion.",
  ["iec61131-st/extra_functions.st", "iec61131-st/date_time_conversion.st"],
  [("conversions", "iec61131-st/extra_functions.st: *_TO_LINT, *_TO_ULINT, *_TO_LWORD and back"), ("L-variants", "iec61131-st/date_time_conversion.st")])

p("C40", "ST text functions return the text that their name promises, in both encodings",
  "LEFT, RIGHT, MID, INSERT, DELETE and REPLACE return the STRING or WSTRING made of exactly the characters their positions and lengths name. Numbers, TIME, DATE, TOD and DT (and the L-variants) turn into the same text as STRING and as WSTRING, a terminated one, and STRING and WSTRING turn into each other without loss. A text of digits, as STRING or WSTRING, parses to its value, and WSTRING_TO_DINT fails with a panic when that is beyond DINT.",
  ["inputs"], "every character of short texts, every number of a few digits and the limits of the types, every instant to the second of some years",
  ST + "they sample one text per function.",
  ["iec61131-st/string_functions.st", "iec61131-st/string_conversion.st", "iec61131-st/extra_functions.st", "src/string_functions.rs", "src/string_conversion.rs", "src/extra_functions.rs"],
  [("editing", "iec61131-st/string_functions.st: *__STRING, *__WSTRING"), ("texts of values", "iec61131-st/extra_functions.st: *_TO_STRING, *_TO_WSTRING"), ("values of texts", "iec61131-st/extra_functions.st: STRING_TO_*, WSTRING_TO_*")])

p("C41", "ST string comparison follows the character order; characters and texts convert",
  "STRING_GREATER, STRING_EQUAL, STRING_LESS and their WSTRING versions return TRUE exactly when the first text is greater than, equal to or less than the second, comparing character by character up to the terminator, a proper prefix being less. STRING_TO_CHAR and WSTRING_TO_WCHAR return the first character of the text, CHAR_TO_STRING and WCHAR_TO_WSTRING the text of that one character.",
  ["inputs"], "every pair of short texts whatever follows their terminators, texts that fill the variable and differ at one place, every character",
  ST + "they compare a few literals.",
  ["iec61131-st/string_functions.st", "iec61131-st/string_conversion.st", "src/string_functions.rs"],
  [("comparison", "iec61131-st/string_functions.st: STRING_GREATER and the other five"), ("characters", "iec61131-st/string_conversion.st: STRING_TO_CHAR, CHAR_TO_STRING and the wide ones")])

p("C42", "Function blocks keep their state in the instance that ST declares",
  "Every function block reads its inputs from, writes its outputs to and keeps its state in the variables of its ST declaration, in declaration order, so that calls through that declaration follow the rules of SR/RS, R_TRIG/F_TRIG, CTU/CTD/CTUD and TP/TON/TOF. A call changes nothing outside the instance, such as the neighbouring instance of an array, and leaves its inputs unchanged.",
  ["histories", "inputs"], "for all 29 function blocks: every input value in two calls (edges: three) from every counter value, every clock reading, whatever the neighbouring memory holds",
  ST + "nothing else compares the two declarations of an instance.",
  ["iec61131-st/counters.st", "iec61131-st/timers.st", "iec61131-st/flanks.st", "iec61131-st/bistable_functionblocks.st", "src/counters.rs", "src/timers.rs", "src/flanks.rs", "src/bistable_functionblocks.rs"],
  [("declarations", "iec61131-st/*.st: FUNCTION_BLOCK"), ("instances", "src/counters.rs: CTUParams and others, src/timers.rs: TimerParams, src/flanks.rs: Trigger, src/bistable_functionblocks.rs: SetResetParams")])

p("C43", "ST text functions stay within their result and local variables",
  "LEFT, RIGHT, MID, INSERT, DELETE and REPLACE for STRING and WSTRING, STRING_TO_WSTRING, WSTRING_TO_STRING and the conversions of WSTRING to numbers write nothing outside their result and local variables, however long their arguments are within the declared length. Texts that fill the result exactly are returned in full.",
  ["inputs"], "texts of the declared length, positions at both ends and in the middle, any characters at three places, characters of one to three bytes",
  ST + "they use texts of a few characters.",
  ["iec61131-st/string_functions.st", "iec61131-st/string_conversion.st", "iec61131-st/extra_functions.st", "src/string_functions.rs", "src/string_conversion.rs"],
  [("results", "iec61131-st/string_functions.st: *__STRING, *__WSTRING"), ("conversions", "iec61131-st/string_conversion.st"), ("local variables", "iec61131-st/extra_functions.st: WSTRING_TO_*")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
