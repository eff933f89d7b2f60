"""The property list (source of properties.jsonl and MANIFEST.json; `python3 meta/gen.py` rewrites both)."""
L = 'DotNetLibrary/src/'
H = 'DotNetLibrary/include/'

P = {}


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d['anchors']['observe_at'] = observe or ['return value, exception type and memory contents of the public functions']
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P[id] = d


prop('P01', 'Array element addressing is row-major, bounds-checked and injective',
     'For one-, two- and three-dimensional arrays of every element type, addressing an element yields exactly the row-major location for the given indexes, and any index outside its dimension (or given for a '
     'missing dimension, or omitted for an existing one) raises IndexOutOfRangeException. Constructing an array records the dimensions, rank and total count and provides zeroed storage for all elements; '
     'negative dimensions and sizes beyond Int32 bytes raise OverflowException. An array made over given memory uses it in place and never releases it; its own storage is released with the array.',
     ['inputs'], 'every rank 1..3, every element type, all dimension sizes and all index values (including negative and extreme)',
     'tests address a handful of small arrays; the guarantee is over all 32-bit index and dimension combinations, where wrong strides, off-by-one bounds and overflow hide',
     [L + 'Array.cpp', H + 'Array.h'], [('Array::ComputeIndex / Address', L + 'Array.cpp'), ('Array::InitializeData', L + 'Array.cpp'), ('DataTypeSize table', L + 'Array.cpp')],
     [('dimension sizes, rank, total count, data', 'shape of the array and its storage', H + 'Array.h')])
prop('P02', 'Array typed element store and load round-trip and touch nothing else',
     'Storing a boxed value into an array element stores exactly that value converted to the element type, and loading an element returns a new box of the element type holding exactly the stored value, for every '
     'primitive element type, rank and valid index. A store changes only the addressed element, and invalid indexes raise IndexOutOfRangeException without changing anything.',
     ['inputs'], 'every element type, every value of that type, every rank and index',
     'tests store and load a few values per type; they cannot show that no other element changes or that every value survives',
     [L + 'Array.cpp'], [('Array::SetValue / GetValue', L + 'Array.cpp'), ('the per-type virtual conversions', L + 'Object.cpp')])
prop('P03', 'Bulk array operations move exactly the requested elements',
     'Copying, clearing and searching arrays acts on exactly the requested range: a copy leaves the destination range equal to the source range as it was before the call (also when they overlap) and everything else '
     'unchanged. Ranges that do not fit, null arrays, negative positions, rank and element-type mismatches raise the documented exception and change nothing.',
     ['inputs'], 'all array lengths, contents, start indexes and counts, including overlapping ranges in the same array',
     'overlap and boundary combinations are unbounded; tests copy a few short disjoint ranges',
     [L + 'Array.cpp'], [('Array::Copy / ConstrainedCopy / CopyTo / Clear / VerifyIndexWithinRangeOfArray', L + 'Array.cpp')])
prop('P04', 'Buffer byte operations are in-bounds and move exactly the requested bytes',
     'Byte-level access to primitive arrays reads and writes exactly the addressed byte, the reported byte length is element count times element size, and a block copy leaves the destination bytes equal to the source '
     'bytes before the call with everything else unchanged, also for overlapping ranges. Null arguments, negative or too large offsets and counts raise the documented exception and change nothing.',
     ['inputs'], 'all array lengths, element types, offsets and counts', 'tests use a few fixed arrays and offsets; overlap and boundary cases are unbounded',
     [L + 'Buffer.cpp'], [('Buffer::BlockCopy / GetByte / SetByte / ByteLength', L + 'Buffer.cpp')])
prop('P05', 'BitConverter conversions are exact inverses with validated positions',
     'Converting any primitive value to bytes and back yields the same value bit for bit, in the little-endian order of the platform, at every valid start position; the bit-pattern conversions between Double/Int64 and '
     'Single/Int32 are exact. Null arrays, negative or too large start positions raise the documented exception instead of reading outside the array, and the hexadecimal text of a byte range is two upper-case digits per byte joined by dashes.',
     ['inputs'], 'every value of every primitive type, every array length and start position', 'tests convert a few values at a few positions',
     [L + 'BitConverter.cpp'], [('BitConverter::GetBytes / ToXxx / ToString / VerifyArray', L + 'BitConverter.cpp')])
prop('P06', 'Calendar date and tick count conversions are exact inverses',
     'For every valid year, month, day and time of day the tick count is the exact number of 100 ns units since 0001-01-01 in the proleptic Gregorian calendar, and decomposing any tick count gives back exactly those '
     'parts, day of week and day of year. Invalid parts raise ArgumentOutOfRangeException; leap years and days per month follow the Gregorian rule.',
     ['inputs'], 'all 3.1e18 tick counts and all part combinations, valid or not', 'tests check a few dates; century, leap and month boundaries are spread over 3.65 million days',
     [L + 'DateTimeValue.cpp'], [('DateTime::DateToTicks / TimeToTicks / GetDatePart / IsLeapYear / DaysInMonth', L + 'DateTimeValue.cpp')])
prop('P07', 'DateTime arithmetic is exact or raises; comparisons follow the ticks',
     'Adding a span, ticks, months or years to a date yields exactly the calendar result (month arithmetic clamps the day to the length of the target month; an amount of days to milliseconds given as a '
     'floating-point number is rounded to the nearest millisecond first), or raises ArgumentOutOfRangeException when the result leaves '
     'the supported range; it never wraps. Differences are exact and all comparison operations agree with the order of the tick counts. Now and UtcNow are the civil time that the C library gives for the system clock, to the millisecond, and converting '
     'between local and universal time moves a date by exactly the hours and minutes by which those two civil times differ, whatever the time zone.',
     ['inputs'], 'all pairs of dates, spans, month and year counts', 'tests add a few in-range amounts',
     [L + 'DateTimeValue.cpp'], [('DateTime::Add* / Subtract / Compare* / op_*', L + 'DateTimeValue.cpp')])
prop('P08', 'TimeSpan arithmetic is exact or raises OverflowException; components add up',
     'Constructing, adding, subtracting, negating and taking the absolute value of spans gives the exact tick result or raises the documented overflow error, never a wrapped value; the day/hour/minute/second/millisecond '
     'components are the truncated parts of the tick count and totals are the tick count divided by the unit. A span made or scaled with a floating-point number is that product, or an error when the number is NaN or the product does not fit. All comparison operations agree with the order of the tick counts.',
     ['inputs'], 'all 64-bit tick counts and component values', 'tests use a few small spans, none near the range limits',
     [L + 'TimeSpanValue.cpp'], [('TimeSpan::TimeToTicks / Add / Subtract / Negate / Duration / Interval / Compare / op_*', L + 'TimeSpanValue.cpp')])
prop('P09', 'Number parsing accepts exactly in-range numerals',
     'Parsing a string as an integer type yields exactly the number it denotes, raises OverflowException when the number does not fit the type, and FormatException when the text is not a decimal numeral with optional '
     'surrounding white space and sign. The Try form accepts exactly the same strings, returns the same value, reports false (and zero) otherwise, and never raises. Parsing Single and Double text yields the number '
     'the C library reads when nothing but white space surrounds it; any other text raises FormatException, null raises ArgumentNullException, and the Try form reports false and zero.',
     ['inputs'], 'all strings of any length, for each of the eight integer types and both floating-point types', 'tests parse a dozen strings; overflow boundaries and malformed texts are unbounded',
     [L + 'Int32Value.cpp', L + 'Int64Value.cpp', L + 'DoubleValue.cpp', L + 'SingleValue.cpp'], [('XxxValue::Parse / TryParse', L + 'Int64Value.cpp')])
prop('P10', 'Boxed primitives convert, compare and test equality consistently',
     'Converting a boxed primitive to another primitive type follows the numeric conversion of its value, equality holds exactly for boxes of the same type and value, and comparison returns the sign of the mathematical order '
     '(never affected by overflow). Comparing with null is positive, with another type raises ArgumentException, and equality with null is false.',
     ['inputs'], 'every pair of values of every primitive type', 'tests compare a few small values; subtraction-style comparison errors only appear for far-apart values',
     [L + 'Int32Value.cpp', L + 'Int64Value.cpp', L + 'Object.cpp'], [('XxxValue::CompareTo / Equals / get_AsXxx', L + 'Int32Value.cpp')])
prop('P11', 'Integer Math functions are exact or raise the documented exception',
     'Absolute value, sign, minimum, maximum, clamping, full-width multiplication, quotient and remainder agree with the mathematical result for every argument of every integer type. Where no result exists (absolute value of '
     'the most negative number, quotient overflow, division by zero, inverted clamp bounds) the documented exception is raised; no argument traps or yields a wrapped result.',
     ['inputs'], 'all argument values of all integer types', 'tests use a few small numbers; the extremes are where the definitions break',
     [L + 'DotNetMath.cpp', H + 'DotNetMath.h'], [('Math::Abs / Sign / Min / Max / Clamp / BigMul / DivRem', L + 'DotNetMath.cpp')])
prop('P12', 'Floating-point classification, rounding and bit-level functions follow IEEE 754',
     'Classification (NaN, infinity, finite, normal, subnormal, negative), sign copying, next-up/next-down, magnitude comparison, min/max, rounding and comparison of Single and Double values agree with IEEE 754 for every bit '
     'pattern, including NaNs, signed zeros, infinities and subnormals.',
     ['inputs'], 'all 2^64 double and 2^32 single bit patterns', 'tests sample a few patterns per function',
     [L + 'DoubleValue.cpp', L + 'SingleValue.cpp', L + 'DotNetMath.cpp'], [('DoubleValue / SingleValue classification; Math rounding, Min/Max, CopySign, BitIncrement', L + 'DoubleValue.cpp')])
prop('P13', 'String search, comparison and equality are correct at every position',
     'Searching for a character, a set of characters or a substring returns exactly the first (or last) position in the searched window where it occurs, or -1; prefix, suffix and containment tests agree with that. Comparison '
     'orders strings by their first difference and their length, with null before every string; equality holds exactly for equal contents; and invalid windows raise the documented exception.',
     ['inputs'], 'all strings, patterns, start positions and counts', 'tests search a few short strings; window boundaries and overlapping prefixes are unbounded',
     [L + 'StringDotNet.cpp'], [('String::IndexOf* / LastIndexOf* / Compare* / Equals / StartsWith / EndsWith / Contains', L + 'StringDotNet.cpp')])
prop('P14', 'String transforms return exactly the specified text and never modify the source',
     'Substring, trimming, padding, inserting, removing, replacing characters, case mapping, copying, concatenating and joining return a string whose characters are exactly those the operation specifies, always terminated and of the '
     'reported length. The source string is never changed and out-of-range arguments raise the documented exception.',
     ['inputs'], 'all strings and argument values', 'tests transform a few short strings',
     [L + 'StringDotNet.cpp'], [('String constructors, Substring, Trim*, Pad*, Insert, Remove, Replace, ToLower/ToUpper, Copy, CopyTo, ToCharArray', L + 'StringDotNet.cpp')])
prop('P15', 'StringBuilder keeps exact contents within capacity under every operation',
     'After any operation the builder holds exactly the characters the operation specifies applied to its previous contents (append, insert, remove, replace characters, set length, change capacity), is terminated, and its length '
     'never exceeds its capacity nor its capacity the maximum. Out-of-range arguments raise the documented exception and leave the contents unchanged; no operation accesses memory outside its buffer, before or after it has grown.',
     ['inputs', 'histories'], 'all reachable builder states (inline or grown buffer) and all arguments; each operation preserves the invariant, so all operation sequences',
     'tests run short sequences on short texts; growth boundaries and moves inside the buffer are unbounded',
     [L + 'StringBuilder.cpp', H + 'StringBuilder.h'], [('StringBuilder::set_Capacity / EnsureCapacity / Append / Insert / Remove / set_Length', L + 'StringBuilder.cpp')],
     [('buffer, capacity, length, maximum capacity', 'length <= capacity <= maximum; buffer holds capacity + 1 characters; terminator at length', H + 'StringBuilder.h')])
prop('P16', 'Substring replacement in text rewrites exactly the non-overlapping matches',
     'Replacing a character or a substring in a string or a builder range rewrites exactly the leftmost non-overlapping occurrences inside the range and leaves all other characters in order, for replacements shorter, equal or longer than the '
     'searched text. Null or empty search text and invalid ranges raise the documented exception, and the buffer always has room for the result.',
     ['inputs'], 'all texts, search and replacement strings and ranges', 'tests replace a few words in short texts',
     [L + 'StringBuilder.cpp'], [('StringBuilder::CountSubStrings / Replace / ReplaceSubString', L + 'StringBuilder.cpp')])
prop('P17', 'String enumeration yields every character once and in order',
     'Enumerating a string yields each of its characters exactly once in order and then reports the end; the current character may be read only between a successful move and the end, otherwise the documented exception is raised. '
     'Resetting starts over from the first character.',
     ['histories', 'inputs'], 'all strings and all sequences of move, read and reset', 'tests walk one or two strings once',
     [L + 'CharEnumerator.cpp'], [('CharEnumerator::MoveNext / get_Current / Reset', L + 'CharEnumerator.cpp')])
prop('P18', 'The platform allocator hands out aligned, disjoint, zeroed memory or none',
     'In pool mode every allocation returns a zeroed, aligned region inside the pool that is disjoint from all earlier ones, or nothing when the request does not fit, whatever its size; it never writes outside the region. '
     'In heap mode the region is zeroed and as large as requested.',
     ['histories', 'inputs'], 'all request sizes in all reachable pool states', 'tests allocate small objects; exhaustion and size overflow need unusual requests',
     ['PlatformSupport/src/PlatformSupport.cpp'], [('operator new replacement', 'PlatformSupport/src/PlatformSupport.cpp')])
prop('P19', 'Character classification and parsing are consistent and index-checked',
     'Classifying a character gives the same answer directly and through a string position, agrees with the platform classification of that character, and the digit, letter, separator and whitespace classes are consistent with '
     'each other. Null strings and positions outside the string raise the documented exception, and parsing a character accepts exactly one-character strings. Boolean parsing accepts exactly True and False, in any letter case.',
     ['inputs'], 'all characters, strings and positions', 'tests classify a few characters',
     [L + 'CharValue.cpp', L + 'BooleanValue.cpp'], [('CharValue::IsXxx / Parse / ToUpper / ToLower', L + 'CharValue.cpp')])
prop('P20', 'Formatting values writes the exact text within the given buffer',
     'Formatting a boxed value, date or span into a buffer writes exactly the text that denotes the value, terminated and within the given size, and returns its length; a buffer that is too small is never overrun. Parsing a '
     'formatted span gives back the same span.',
     ['inputs'], 'all values and buffer sizes', 'tests format a few values into large buffers',
     [L + 'TimeSpanValue.cpp', L + 'DateTimeValue.cpp'], [('FormatString of the value types; TimeSpan::Parse', L + 'TimeSpanValue.cpp')])
prop('P21', 'The translator rejects exactly the unsupported .NET constructs',
     'Translating an assembly reports an error for every use of a type, method or construct outside the supported subset and otherwise emits C++ whose behaviour is that of the original program.',
     ['programs'], 'all .NET assemblies', 'the feature tests translate one assembly, and need a .NET tool chain',
     ['CppTranslator/ValidTypes.cs', 'CppTranslator/CppTypeVisitor.cs'], [('ValidTypes / visitors', 'CppTranslator/')])

prop('P22', 'Exceptions carry the message of their class',
     'An exception object of each library class is created with the message of that class and no inner exception, a message given to an exception is the one it reports, and creating an exception changes nothing but the new object.',
     ['inputs'], 'all exception classes, created in any state', 'tests check the class of a thrown exception, rarely its contents',
     ['DotNetLibrary/include/Exception.h'], [('constructors and get_Message of Exception and its classes', 'DotNetLibrary/include/Exception.h')])

NA = {'P21': 'the translator is C# source over the ILSpy decompiler library; no .NET tool chain, no decompiler sources and no deductive verifier for C# exist in this sandbox, so no contract on it can be checked by a machine here'}
PENDING = 'no contracts have been discharged for it yet'
