import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title)); P.append(d)

p("C01","A nominal string holds exactly the text its operations spell",
"Whatever sequence of appends (character or text), prepends and in-place edits is applied to a nominal string, its content is exactly the text an ordinary sequence of characters would hold after the same operations, and it is always valid UTF-8. This is independent of how the string was created (empty, empty and optimised for prepending, default, from text, from a character, from an owned string) and of whether it is stored inline, moves to the heap midway, or already lives there. Edits made to a copy never show in the original, or the other way round.",
["histories"],"every operation sequence on every constructor, all character widths 1-4 bytes, all lengths around the 62-byte inline limit",
"The tests push a handful of one-byte characters and cross the limit exactly once with 62 'a's; multi-byte characters, mixed ends on a prepend-optimised buffer and clones near the boundary are never exercised.",
["src/nominalstring.rs"],[("InlineString::push/push_str/push_front (forward and reverse layout)","src/nominalstring.rs"),("MaybeInline spill to heap","src/nominalstring.rs"),("From<&str>/From<char>/From<String>","src/nominalstring.rs")],
["return of try_push, try_push_str, try_push_front, Clone, Deref, DerefMut"],
[("InlineString.length","7-bit length plus direction bit","src/nominalstring.rs"),("InlineString.bytes","62 possibly uninitialised bytes","src/nominalstring.rs")])

p("C02","62-byte inline storage limit and clean out-of-memory failures",
"A string built by pushes stays inline while its text is at most 62 bytes and moves to the heap exactly when a push takes it over 62 bytes, after which the owned heap string can be taken out with the same text; taking it out of an inline string gives the unchanged string back. Without the allocation feature, a push that would exceed 62 bytes fails with the out-of-memory error and leaves the text unchanged, every push that fits succeeds, and later pushes that fit still work. Formatted nominals of at most 62 bytes are stored inline.",
["histories","configurations"],"every push history reaching every length 0..62 and beyond with every operand size, with and without the alloc feature",
"The tests only run with alloc and only check the 62->63 step with one-byte characters; no test runs without alloc at all.",
["src/nominalstring.rs"],[("capacity comparison in MaybeInline::push/push_str/push_front","src/nominalstring.rs"),("try_into_string / From<NominalString> for String","src/nominalstring.rs"),("cfg(not(feature = \"alloc\")) branches","src/nominalstring.rs")],
["is_inline, try_into_string, Result of try_push*"])

p("C03","Nominal strings compare, order, print and convert purely by text",
"Equality and ordering between two nominal strings, and between a nominal string and borrowed or owned text, agree with comparing the texts, regardless of how each string was built or stored; equality and ordering are consistent with each other in both directions. Displaying a nominal string with any width, fill, alignment or precision gives the same output as displaying its text, and cloning it or converting it to an owned string keeps the text.",
["inputs","histories"],"every pair of strings over every construction/storage combination, every formatting specification",
"Tests only use == against string literals; ordering, cross-representation equality and padded display are never tested.",
["src/nominalstring.rs"],[("PartialEq/Eq/PartialOrd/Ord impls","src/nominalstring.rs"),("Display for NominalString","src/nominalstring.rs"),("Clone, From<NominalString> for String","src/nominalstring.rs")],
["==, cmp, partial_cmp, format!, String::from"])

p("C04","Systems with a zero digit write exact base-N numerals",
"Every system with two or more digits including a zero writes each number as its ordinary base-N numeral, most significant digit first, without leading zeros (zero itself is the single zero digit), so that reading the digits back gives the number. The built-in decimal scripts use the ten Unicode digits of their script in order of value (CJK uses 〇一二三四五六七八九), and the hexadecimal systems use 0-9 followed by the first six letters of their case. This holds for the full range of every supported unsigned type and for user-defined digit sets.",
["inputs","configurations"],"every value of u8..u128 and usize, every built-in positional system, user digit sets of every size",
"Tests format four small decimals and one hex constant; 20 of the 25 scripts are never executed and no value above 32 bits is.",
["src/digital.rs"],[("impl NominalSystem for D: DigitCollection","src/digital.rs"),("impl_digit_set! tables","src/digital.rs")],
["try_format_nominal result text"])

p("C05","Alphabetic systems enumerate all words in order with no gaps",
"Systems without a zero digit number things with every non-empty word over their symbols, shortest first and in symbol order within a length: counting from zero gives the first symbol to 0, counting from one gives it to 1. The one-based variant of a number is always the zero-based variant of its predecessor, and one-based formatting of 0 is rejected as having no zero symbol. The built-in alphabets (Latin, Greek, Hiragana/Katakana in both orders, Hangeul jamo and syllables) use their letters in traditional order, for every unsigned type up to its maximum.",
["inputs","configurations"],"every value of every unsigned type, every alphabet and both counting bases, user alphabets of every size including one symbol",
"Tests sample a few one- and two-letter results of one alphabet; the length roll-overs at every power of N, maximum values and non-Latin alphabets are never sampled.",
["src/digital.rs"],[("zeroless branch of impl NominalSystem for D: DigitCollection","src/digital.rs"),("OneBased","src/digital.rs"),("impl_digit_set! tables","src/digital.rs")],
["try_format_nominal result"])

p("C06","Fixed collections give one symbol, then hand over entirely to the fallback",
"A fixed digit collection formats each number in its range as exactly one of its symbols, and every number beyond the range is formatted in whole by its fallback collection (recursively), or is reported out of bounds with the original number when there is no fallback. CJK Heavenly Stems cover 1-10 and Earthly Branches 1-12 with their traditional symbols, both falling back to CJK decimal, and both reject 0 as having no zero symbol. Whether counting starts at 0 or 1 moves the range but never its size, and one-based or restricted views of a fixed collection remain fixed with the same fallback.",
["inputs","configurations"],"every number against every fixed collection: any size, counting base, fallback chain and wrapper",
"No test covers a fixed collection at all; only documentation previews show a few values.",
["src/digital.rs"],[("fixed()/Fallback range check","src/digital.rs"),("CjkHeavenlyStem, CjkEarthlyBranch","src/digital.rs"),("OneBased/Restrict forwarding","src/digital.rs")],
["try_format_nominal result and error payload"])

p("C07","Chain, restrict and one-based combinators compose as digit sequences",
"Chaining two collections behaves as the collection whose digits are the first's followed by the second's and which counts like the first; restricting behaves as the collection of the first k digits (all of them if there are fewer); one-based counting shifts a zeroless collection by one and changes nothing for a collection with a zero digit. This holds for arbitrary nesting, and formatting with the combined collection equals formatting with the plain collection that lists those digits. A collection too small to count with (empty, or only a zero digit) reports out of bounds rather than failing.",
["programs","inputs"],"every nesting of combinators over any digit collections, every digit index, every number and type",
"Only the two built-in hexadecimal combinations are tested, with one value each.",
["src/digital.rs"],[("Chain","src/digital.rs"),("Restrict","src/digital.rs"),("OneBased","src/digital.rs")],
["len, is_empty, digit, has_zero_digit, try_format_nominal"])

p("C08","Additive systems are greedy sums of symbol values",
"An additive system writes a positive number as symbols of non-increasing value whose values add up to exactly the number, always taking the largest symbol that still fits; zero is the zero symbol if the system has one and is otherwise rejected as having no zero symbol. A number that the symbols cannot add up to is reported out of bounds with that number, never written partially. The built-in Roman (with overlined thousands), Armenian, Georgian, Japanese, Hangeul and Hanja systems use the standard symbol values, in every unsigned type including those too small to hold some symbol values.",
["inputs","configurations"],"every number whose result fits memory, every unsigned type, every built-in additive system and user symbol sets",
"Tests check 0-5, 4000 and two round millions of Roman numerals; six of the eight systems and all combined values are untested.",
["src/additive.rs"],[("AdditiveSet::try_format_nominal","src/additive.rs"),("symbol tables","src/additive.rs")],
["try_format_nominal result and error payload"])

p("C09","An additive set is accepted exactly when its values strictly descend",
"Creating an additive set succeeds exactly when each symbol's value is strictly smaller than the previous one's, including sets of zero or one symbols, and panics otherwise. In an accepted set a symbol of value 0 can only be the last one and is what zero is written as; it is never part of any other number.",
["inputs"],"every list of symbol values of every length",
"No test constructs an invalid set or a set without a zero symbol.",
["src/additive.rs"],[("AdditiveSet::new assertion and zero detection","src/additive.rs")],
["AdditiveSet::new panics or not; formatting of 0"])

p("C10","Hebrew numerals: letter sums, 15/16 exception and lone-letter marks",
"A Hebrew numeral is the letters of the number in descending value (400, 300 ... 1, with 400 repeated as needed) adding up to the number. A number ending in 15 or 16 ends with ט״ו or ט״ז instead of the divine-name letters, and never contains י followed by ה or ו at its end; a number written with a single letter is wrapped in ׳ and ״ and no other number is. Zero is rejected as having no zero symbol.",
["inputs"],"every positive number whose result fits memory, every unsigned type",
"Four positive values are tested; none combines hundreds with 15/16, repeats 400 exactly, or uses a narrow type.",
["src/hebrew.rs"],[("symbol loop with 15/16 and single_symbol cases","src/hebrew.rs")],
["try_format_nominal result"])

p("C11","Ethiopic numerals follow the hundred/myriad grouping rules for every number",
"Ethiopic numerals write the number in two-digit groups using the tens and ones letters, where a group of zero has no letters and a group worth one has no letters if it is at a hundreds position or leads a numeral of more than one group. Each non-zero group at a hundreds position is followed by ፻ and each group at a myriad position by ፼ even if it is zero; the lowest group has no separator. The number 1 is ፩ and zero is rejected as having no zero symbol; distinct numbers always get distinct numerals.",
["inputs"],"every number of every unsigned type (up to 20 groups)",
"Five values are tested; combinations of zero groups, ones at odd/even positions and leading groups up to u128 are not.",
["src/ethiopic.rs"],[("format_ethiopic group loop","src/ethiopic.rs")],
["try_format_nominal result"])

p("C12","Chinese numerals: digit reading, zero insertion and informal tens",
"In Chinese numerals each non-zero decimal digit is read with its unit within its group (four digits; in the short scale each rank above the thousands is its own group), and between two read digits exactly one 零 is read when zeros inside a group, at the start of a group, or filling whole groups of the text below a rank word were skipped; zeros only at the end of a group, or only at the end of what multiplies a rank word, are silent, and zero alone is 零. Formal styles always write 一十; informal styles drop the 一 exactly when the numeral starts with ten to nineteen units (e.g. 十二, 十万). Simplified, traditional, ordinary and financial variants differ only in the characters used.",
["inputs","configurations"],"every number of every unsigned type, all four styles, ordinary and financial characters, all scales",
"22 sampled values; none has a skipped group followed by a full one (where the code was wrong), and formal styles are untested.",
["src/chinese.rs"],[("format_chinese_inner","src/chinese.rs"),("last_char_is_zero / no_prefix threading","src/chinese.rs"),("character tables","src/chinese.rs")],
["try_format_nominal result"])

p("C13","Chinese large-number scales place every rank word correctly",
"The default (myriad) scale names each power of ten thousand (万 亿 兆 京 垓 秭 穰 沟 涧); the mid scale names 10^4, 10^8 and every further 10^8; the long scale names 10^4, 10^8, 10^16, 10^32 with multipliers spelled with the lower words; the short scale names each power of ten from 10^4 to 10^14. Reading a numeral back under its scale gives the number, and the short scale reports numbers of 10^15 and above as out of bounds with the original number while the other scales accept every number. The result does not depend on which large-enough type holds the number.",
["inputs","configurations"],"every number up to 2^128-1 in every type, four scales, all styles",
"22 values on three of four scales with one style; ranks between the samples and types other than u128 are not covered.",
["src/chinese.rs"],[("ChineseScale::format*","src/chinese.rs"),("MYRIAD_SCALE, MID_SCALE, LONG_SCALE, SHORT_SCALE","src/chinese.rs")],
["try_format_nominal result and error payload"])

p("C14","Enumerated systems map each index to its symbol and reject the rest",
"An enumerated system with a zero gives number k its k-th symbol counting from 0; one without gives number k its k-th symbol counting from 1 and rejects 0 as having no zero symbol. Every other number, however large and in whatever type, is reported out of bounds with that number. Circled numbers cover exactly 0-50 and double-circled numbers exactly 1-10 with the standard symbols.",
["inputs","configurations"],"every number of every type, built-in and user-defined symbol lists of every length including empty",
"No test covers enumerated systems; previews show some values.",
["src/enumerated.rs"],[("EnumeratedSet::try_format_nominal","src/enumerated.rs"),("CircledNumber, DoubleCircledNumber tables","src/enumerated.rs")],
["try_format_nominal result"])

p("C15","Infallible formatting falls back to decimal for exactly the failing number",
"Infallible formatting returns the system's own text whenever fallible formatting succeeds and otherwise the decimal form of the number that was asked for (0 for the no-zero-symbol error). Out-of-bounds and out-of-memory errors always carry the originally requested number, and the error's and the result's own decimal conversions agree with it. Formatting through the number or through the system gives the same result.",
["inputs","configurations"],"every system, number and type, every error kind, with and without alloc",
"One doc example shows one fallback; error payloads are asserted only for two Chinese values.",
["src/lib.rs"],[("NominalSystem::format_nominal","src/lib.rs"),("Error::into_decimal, UnwrapOrDecimal, WithNominal","src/lib.rs"),("Nominal::to_nominal/try_to_nominal","src/lib.rs")],
["format_nominal, to_nominal, try_to_nominal, into_decimal, unwrap_or_decimal, with_nominal"])

p("C16","The integer type never influences the result",
"A number formatted by any system gives the same text, or the same kind of error carrying the same number, from every unsigned integer type that can hold it. This includes types too narrow for the system's own constants (symbol values, ranks, digit counts) and the maximum of each type.",
["inputs","configurations"],"every system times every number times every pair of types that can hold it",
"Each test uses a single type per system, nearly always u32.",
["src/lib.rs","src/digital.rs","src/additive.rs","src/chinese.rs","src/hebrew.rs"],[("T::try_from guards in each formatter","src/*.rs"),("UnsignedInteger impls","src/lib.rs")],
["try_format_nominal for u8..u128, usize"])

p("C17","Different numbers never share a numeral within a system",
"Within one system, two different numbers that both have a numeral never have the same text, so a numeral identifies its number. For systems with a fallback this holds across the switch as well.",
["inputs"],"every pair of numbers per built-in system",
"Tests never compare results of different inputs.",
["src/digital.rs","src/additive.rs","src/chinese.rs","src/ethiopic.rs","src/hebrew.rs","src/enumerated.rs"],[("all formatters","src/*.rs")],
["try_format_nominal result text"])

p("C18","Without allocation, results are identical or a clean out-of-memory error",
"With the allocation feature disabled, every formatting request gives exactly the text or error it gives with the feature enabled, except that a text longer than 62 bytes becomes the out-of-memory error carrying the requested number. Infallible formatting then returns that number in decimal, which always fits.",
["configurations","inputs"],"every system, number and type, under both feature settings",
"No test is run without the alloc feature.",
["src/nominalstring.rs","src/lib.rs","src/additive.rs","src/enumerated.rs"],[("cfg(not(alloc)) branches","src/nominalstring.rs"),("with_nominal propagation in every formatter","src/*.rs")],
["try_format_nominal, format_nominal in a no-alloc build"])

p("C19","Formatting always terminates with a well-formed answer and never panics",
"For every system, unsigned type and number whose numeral fits memory, fallible formatting returns either a non-empty text made only of that system's symbols or one of the documented errors, and infallible formatting returns a non-empty text; neither panics nor loops forever. This includes user collections of any size (empty, a single symbol, more symbols than the type can count) and builds without allocation.",
["inputs","configurations"],"every system/collection, type, number and feature setting",
"Tests reach a few dozen inputs and no degenerate collection.",
["src/digital.rs","src/additive.rs","src/chinese.rs","src/ethiopic.rs","src/hebrew.rs","src/enumerated.rs","src/nominalstring.rs"],[("loop exit conditions and index arithmetic in each formatter","src/*.rs")],
["result of every formatting call"])

p("C20","Boxed, reference-counted and shared systems act as the system inside",
"Formatting through a boxed, Rc or Arc trait object gives exactly what the wrapped system gives for the same number, both for fallible and infallible formatting, including errors and including systems that provide their own infallible formatting. This holds when such objects are nested.",
["inputs","configurations"],"every wrapped system, number and type, each wrapper and nesting",
"The test formats 1 in one system once per wrapper.",
["src/lib.rs"],[("impl NominalSystem for Box/Rc/Arc<dyn NominalSystem>","src/lib.rs")],
["format_nominal, try_format_nominal, to_nominal, try_to_nominal through wrappers"])

p("C21","Counting up turns each numeral into its successor like an odometer",
"In every positional and alphabetic system the numeral of n+1 is obtained from the numeral of n by advancing the last digit to the next symbol and, when it was the last symbol, resetting it and carrying into the digit before it, growing by one leading digit when all digits overflow. Consequently later numbers never have shorter numerals, and numerals of equal length are ordered by their symbols' order.",
["inputs","histories"],"every counting run, from any start in any type, across every carry and length change",
"Tests never look at consecutive numbers beyond one roll-over of one alphabet.",
["src/digital.rs"],[("digit loop of impl NominalSystem for D: DigitCollection","src/digital.rs")],
["texts of consecutive try_format_nominal calls"])
p("C22","Answers depend on the request alone, not on history or other threads",
"The answer to a formatting request, text or error, and the text that a series of string operations builds, are the same every time they are asked for: whatever was formatted or built before, with whichever system, number or type, whether the earlier requests succeeded or failed, how often, and whatever other threads are formatting at the same moment. Nothing is remembered from one request to the next and nothing is shared between requests that run at once.",
["histories","schedules"],"every sequence of requests to any systems in any order, any number of repetitions, every interleaving of several threads",
"Each test formats its own numbers once and in one order; a memory of earlier requests or shared scratch space shows only for particular orders or interleavings.",
["src/lib.rs","src/digital.rs","src/additive.rs","src/chinese.rs","src/ethiopic.rs","src/hebrew.rs","src/enumerated.rs","src/nominalstring.rs"],[("every formatter works on locals and a new NominalString; there are no statics and no interior mutability","src/*.rs"),("each string owns its buffer","src/nominalstring.rs")],
["try_format_nominal and format_nominal asked again in other orders and from several threads; texts of strings built on several threads"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
