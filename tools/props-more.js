'use strict';
module.exports = (p, NOTES, NA, { A, F, S, Ty, O, N, Ck, Fs }) => {
    const INP = ['inputs'], G = 'packages/asserts/src/';
    p('A03', 'Shuffling and moving elements only rearrange them', 'Shuffling an array yields the same elements with the same multiplicities, whatever random numbers are drawn, and leaves the input untouched. Moving an element within an array changes positions only: the moved element lands at the requested place and all others keep their relative order.', [...INP, 'schedules'], 'all dense arrays, all index arguments, all sequences of random draws', 'a test sees one random sequence and a few literal arrays', [A + 'shuffle.ts', A + 'move.ts'], [['swap loop driven by random indices', A + 'shuffle.ts'], ['remove-and-insert', A + 'move.ts']]);
    p('A04', 'Longest, shortest and uniqueness queries answer for the whole array', 'The longest/shortest queries return the index of an element no other element is longer/shorter than, and the uniqueness test is true exactly when no two elements are equal. They inspect every element and never change the array.', INP, 'all arrays of any length and content', 'ties, positions of extremes and duplicates at any distance cannot be enumerated', [A + 'maxLengthIndex.ts', A + 'minLengthIndex.ts', A + 'isUnique.ts'], [['running extreme', A + 'maxLengthIndex.ts'], ['duplicate detection', A + 'isUnique.ts']]);
    p('N01', 'Numeric ranges and conversions are exact', 'Clamping keeps a number inside its bounds and leaves numbers already inside alone; interval tests agree with the interval; generated integer ranges contain exactly the integers they should, in order; a random integer (or array element) is decided by one random number and every integer of the range, both ends included (every position of the array), is equally likely; conversion to an integer or to a finite number returns the documented value for every input.', INP, 'all safe integers and doubles, infinities and NaN included, as value and bounds', 'boundary values, non-finite numbers and long ranges are unbounded in number', [N + 'inRange.ts', N + 'range.ts', N + 'rangeSafe.ts', N + 'toInt.ts', N + 'toFiniteNumber.ts'], [['clamping', N + 'range.ts'], ['interval test', N + 'inRange.ts']]);
    p('T01', 'Numeric type predicates accept exactly the numbers they name', 'Each numeric predicate (integer widths, signed/unsigned, safe, float, zero, infinity, prime, leap year, timeout…) returns true for exactly the numbers of its kind and false for every other value, of whatever type.', INP, 'every JavaScript value: all doubles and all non-numbers', 'an off-by-one at a width limit or a wrong answer for one class of double is invisible to sampled tests', [Ty + 'number', Ty + 'date/isLeapYear.ts', Ty + 'timeout/isTimeoutMs.ts'], [['width comparisons', Ty + 'number/int'], ['trial division', Ty + 'number/isPrimeNumber.ts']]);
    p('T02', 'Kind predicates accept exactly the values of their kind', 'Each predicate for a kind of value (nullability, primitives and their wrappers, collections, buffers and views, functions, generators, iterables, errors, dates, files, streams, plain and bare objects, things with a length or a size, own and inherited properties) returns true for exactly the values of that kind, as given by the language, the built-in tag, the prototype or the named properties, and false for every other value, without throwing; the variants for filled values also require at least one element.', INP, 'every JavaScript value', 'the set of values is unbounded and the mistakes are one kind of value wide', [Ty + 'nullable', Ty + 'boolean', Ty + 'bigint', Ty + 'symbol', Ty + 'string', Ty + 'primitive', Ty + 'collection', Ty + 'buffer', Ty + 'function', Ty + 'generator', Ty + 'promise', Ty + 'error', Ty + 'iterator', Ty + 'object', Ty + 'property', Ty + 'stream', Ty + 'type'], [['tag comparison', Ty + 'type/getTag.ts'], ['typeof tests', Ty + 'primitive/isPrimitive.ts']]);
    p('T03', 'Array-of predicates hold exactly when every element does', 'A predicate for arrays of some kind is true exactly for the non-empty arrays all of whose elements are of that kind, wherever the odd one out may be; the equality predicates likewise compare with every given value, treating NaN as equal to itself.', INP, 'arrays of any length holding any values, and every non-array', 'a wrong element can sit at any index of an array of any length', [Ty + 'string/isStringArray.ts', Ty + 'number/isNumberArray.ts', Ty + 'object/isObjectArray.ts', Ty + 'cmp/isEqual.ts', Ty + 'cmp/isNotEqual.ts'], [['every over the elements', Ty + 'string/isStringArray.ts'], ['NaN-aware comparison', Ty + 'cmp/isEqual.ts']]);
    p('G01', 'Every assertion throws exactly when its predicate says no', 'Each assertion function returns without throwing exactly when the predicate of the same name accepts the value (with the same extra arguments, and the same defaults when they are left out), and otherwise throws a TypeError.', INP, 'every value, every variable name, every extra argument, for all 194 assertions', 'the package has no tests of its own, and the correspondence must hold for every value', [G + 'constants/typeGuard.ts', G + 'cmp/assertEqual.ts', G + 'number/assertNumber.ts'], [['shared guard', G + 'constants/typeGuard.ts'], ['forwarded defaults', G + 'number/assertNumber.ts']]);
    NOTES.G01 = 'For every assertion the verifier proves, on the code in /repo, that it throws (a TypeError) iff the predicate of the same name says no; the predicate itself is taken as a fixed boolean function of its arguments, the assertion and the shared guard are the verified text. Predicates that themselves throw are outside the claim. Cross-checked at run time with the real predicates.';
    const SCH = ['inputs', 'schedules', 'fault_sequences'];
    p('F01', 'A memoized function behaves like a cache in front of the function', 'Over any history of calls, deletions and clearings, at any clock readings, a memoized function runs the original once when no live entry exists for the key of the arguments, and otherwise does not run it and returns exactly the value stored for that key. A failed call stores nothing; an entry lives until the given timeout after it was stored (forever without one), until its key is deleted, or until the cache is cleared.', ['inputs', 'schedules', 'fault_sequences', 'histories'], 'every function, every key function, every sequence of call/delete/clear, every clock', 'the answer depends on the whole history of calls and on the clock; tests replay two or three calls', [F + 'cache/memoizeWith.ts'], [['lookup, expiry and store', F + 'cache/memoizeWith.ts']]);
    p('F02', 'Call-limiting wrappers run the function exactly as often as promised', 'Over any sequence of calls, the once wrapper never runs the function again after it first succeeded and hands that result to every later caller; the only-N wrapper runs it for exactly the first N calls; the after-N wrapper runs it from the Nth call on. Each run gets the bound arguments (followed by the call\'s own where documented), each caller gets its own run\'s result or exception, and anything but a non-negative integer count is rejected with a TypeError.', ['inputs', 'histories', 'fault_sequences'], 'every function (any result, any exception at any call), any number of calls, every count', 'the guarantee is about every history of calls, including ones in which some calls throw', [F + 'limit/once.ts', F + 'limit/runOnlyNTimes.ts', F + 'limit/runAfterTimes.ts'], [['run-once flag', F + 'limit/once.ts'], ['counter', F + 'limit/runOnlyNTimes.ts'], ['countdown', F + 'limit/runAfterTimes.ts']]);
    p('F03', 'Function combinators call each function once, in order, with the right arguments', 'The before/after combinators run both functions exactly once, in the order their name says, hand each its documented arguments or the other\'s result, and return the documented one\'s result. A pipeline runs every function once in order, each on the previous result alone; a curried function waits until it has as many arguments as the function declares and then calls it once with all of them in order. A bound method sees its object and all arguments. A failing function stops the rest and its exception is what the caller gets.', ['inputs', 'fault_sequences'], 'all functions, argument lists and pipelines of any length, a failure at any point', 'argument counts, pipeline lengths and failure points are unbounded', [F + 'chain/before.ts', F + 'chain/after.ts', F + 'chain/applyBefore.ts', F + 'chain/applyAfter.ts', F + 'chain/withBefore.ts', F + 'chain/withAfter.ts', F + 'chain/compose.ts', F + 'currying.ts', F + 'bind.ts'], [['call order', F + 'chain/before.ts'], ['fold over the functions', F + 'chain/compose.ts'], ['argument accumulation', F + 'currying.ts']]);
    p('F05', 'A toggle is always at one of its two values and follows its commands', 'Over any sequence of commands a toggle starts at the first value; toggling switches to the other value and returns it, setting goes to the named side, and reading changes nothing.', ['inputs', 'histories'], 'any two values (equal ones and NaN included), any command sequence', 'the state after any history of commands matters, not only after one', [F + 'select/toggle.ts'], [['current value', F + 'select/toggle.ts']]);
    p('F04', 'A retried task runs until it succeeds, and never more often than allowed', 'Retrying runs the task at least once and at most once more than the number of retries, one attempt after another, stops at the first success and returns its value. Between attempts it waits as configured and leaves no timer behind. When it gives up, the caller gets every attempt\'s error in order, or the error handler decides with the last one; the retry callback hears of every failed retry and ends the retrying when it says so.', ['inputs', 'schedules', 'fault_sequences'], 'any number of retries, any sequence of successes and failures of the task (thrown or rejected), any waiting time or range, any handlers and what they return or throw', 'which attempt fails and which callback fails when is a history; the number of histories is unbounded', [F + 'catch/retry.ts', F + 'delay/delay.ts'], [['attempt loop', F + 'catch/retry.ts']]);
    p('F08', 'Delays, time limits and cancellations wait, fire and clean up as promised', 'A delay sets exactly one timer of the requested time and resolves only once it fired; the delayed-run wrapper then runs the task once with the arguments; the minimum-duration wrapper delivers the result, or the failure, no earlier than the given time. A time limit gives the result of the task or, when the time is up first, that of the fallback, runs each at most once with the given arguments, and never leaves its timer running. A cancellable execution runs the task with the arguments and settles with the cancellation payload when cancelled; a deferred promise keeps its first settlement. A time given as text, function, list or range means the number it stands for: every element, and every integer of a range with both ends, is equally likely; what no timer can wait for is refused with a TypeError.', SCH, 'every duration in every accepted form, every task outcome (value, exception, rejection), either contender finishing first, every random draw', 'which of the task and the timer finishes first, and what fails when, is a schedule; leftover timers show only after the result is already delivered', [F + 'delay', F + 'timeout', F + 'control/cancelExec.ts', F + 'control/deferred.ts'], [['timer race', F + 'timeout/timeoutOr.ts'], ['range of waiting times', F + 'timeout/constants/evaluateInt.ts'], ['hold-back of failures', F + 'delay/delayReturn.ts']]);
    p('L01', 'Text read line by line comes back complete, line by line', 'Reading a text line by line tells the callback (or lists) every line exactly once, in order: exactly the characters between two line ends, empty lines included, with the text after the last line end told last and alone marked as the end. A line ends at LF, CR or CR LF (counted once), in the code-aware reader also at NEL, LS and PS, and nowhere else. A Buffer is read as the text it encodes; anything else is refused. Removing a byte order mark takes off one at the start and changes nothing else.', ['inputs', 'fault_sequences'], 'every text: any number of lines of any length, any mix of line ends, with a callback that may throw', 'line ends can meet at any position of a text of any length, CR LF pairs and the last line included; the package has no tests', [Fs + 'readline.ts', Fs + 'readlineFromCode.ts', Fs + 'stripBOM.ts'], [['scan for line ends', Fs + 'readline.ts'], ['scan for line ends of source text', Fs + 'readlineFromCode.ts'], ['mark removal', Fs + 'stripBOM.ts']]);
    p('F06', 'Collected and parallel tasks keep every result in its place', 'The collector hands out, at the moment the requested number of promises (or the closing call) is reached, exactly the results of the promises given since the last batch (or since the start when accumulating), in order, however calls and promise settlements overlap. The parallel runner starts every task once in order, never has more running than allowed, puts every result at the index of its task, retries and reports failures as configured, and fails exactly if a task does that nobody handles.', SCH, 'overlapping call sequences, task durations, failures, concurrency limits and retry counts', 'the interleaving of the tasks decides which batch or slot a result lands in', [F + 'control/collectItems.ts', F + 'control/parallel.ts'], [['batch bookkeeping', F + 'control/collectItems.ts'], ['shared index of the workers', F + 'control/parallel.ts']]);
    NOTES.F06 = 'Workers and overlapping calls interleave at every await, which the verifier (asynchronous functions run to completion) does not model: the scheduling claims are bounded run-time checks of the contracts; only the argument checks are proved.';
    p('F07', 'Promise wrappers report each outcome of the task faithfully', 'The wrappers that run a task, which may return, throw, resolve or reject, run it exactly once with the given arguments and settle as documented: the non-catching ones with the same value or failure, the catching one with nothing on failure, the two-slot one with the value or the failure in its slot, the fallback one by running the fallback only after a failure with that failure and the arguments, the selecting one by running exactly the branch the condition chose.', SCH, 'all tasks, synchronous or asynchronous, with any outcome; all argument lists', 'each combination of synchronous/asynchronous return, throw and rejection in each position behaves differently', [F + 'catch/noCatch.ts', F + 'catch/tryCatch.ts', F + 'catch/ifThrow.ts', F + 'control/padding.ts', F + 'promise/toPromise.ts', F + 'promise/executeToPromise.ts', F + 'select/select.ts'], [['try/catch around the awaited task', F + 'catch/noCatch.ts'], ['fallback', F + 'catch/ifThrow.ts'], ['branch selection', F + 'select/select.ts']]);
    NOTES.T02 = 'Every obligation generated from the TypeScript sources in /repo is discharged by z3/cvc5 for every JavaScript value; isBuffer, isPropertyDescriptor and the tag cache (getTag) are bounded stand-ins (generated values and histories against their contracts), not counted as proved, and isBuffer/getTag are used by their assumed contracts elsewhere. Predicates of browser classes found by instanceof, of the platform and of parsed text (URL, identifier, date, numeric text) are not claimed. Trusts lib/, the solvers and the assumptions in the evidence file.';
    NOTES.F07 = 'Every obligation generated from the TypeScript sources in /repo is discharged by z3/cvc5 for all inputs. Promises are modelled as values with an outcome (resolved with a non-thenable value or rejected); scheduling between unrelated promises is not modelled. Trusts lib/, the solvers and the assumptions in the evidence file.';
    NOTES.F04 = NOTES.F07;
    const St = 'packages/string/src/';
    p('S01', 'Byte counting and byte encoding of text are UTF-8', 'For every string the byte count is the length of its UTF-8 encoding and the byte list is that encoding, character by character, in order: one to four bytes per character, with an unpaired surrogate encoded as U+FFFD. The code-point query returns the code point at the index (pairs combined) and null outside the string.', INP, 'all strings, including supplementary characters and unpaired surrogates anywhere', 'the encoding has five cases, the wrong ones are rare characters, and a slip shifts everything after it', [St + 'bytes/bytesLength.ts', St + 'bytes/bytesArray.ts', St + 'character/codePointAt.ts'], [['bytesLength', St + 'bytes/bytesLength.ts'], ['bytesArray', St + 'bytes/bytesArray.ts'], ['codePointAt', St + 'character/codePointAt.ts']]);
    p('S02', 'Cutting text into pieces loses nothing', 'Joining the pieces gives the text back: splitting into characters and joining, splitting at the first match of a pattern, and the inside/outside bracket walkers with a callback that returns its segment unchanged, all reproduce the input exactly. Splitting by a byte limit keeps every character whole and in order, exceeds the limit only for a piece that is a single character, and starts a new piece only when the next character does not fit.', INP, 'all strings, patterns and positive byte limits', 'quotes, escapes, nesting and multi-byte characters combine in unboundedly many ways', [St + 'bytes/splitByBytes.ts', St + 'inside/bindInside.ts', St + 'inside/bindOutside.ts', St + 'match/matchSplit.ts', St + 'chars/chars.ts', St + 'chars/fromChars.ts'], [['bindInside', St + 'inside/bindInside.ts'], ['bindOutside', St + 'inside/bindOutside.ts'], ['matchSplit', St + 'match/matchSplit.ts'], ['splitByBytes', St + 'bytes/splitByBytes.ts'], ['chars', St + 'chars/chars.ts'], ['fromChars', St + 'chars/fromChars.ts']]);
    NOTES.S02 = 'Proved for all inputs for the character round trip, the pattern split and both bracket walkers (default bracket table); splitByBytes is a bounded stand-in (random strings against the contract), not counted as proved. Trusts lib/, the solvers and the assumptions in the evidence file.';
    p('S03', 'Prefix, search and indentation helpers answer for the exact position', 'Case-sensitively: removing a prefix removes exactly the given text at the given position and otherwise returns the text unchanged; the starts-with-none test is true exactly when no candidate starts there; the in-front and behind tests are true exactly when some candidate occurs in the text up to, or from, the position. The leading-space and leading-tab counts are exactly the number of leading spaces or tabs.', INP, 'all strings, candidate lists and positions', 'positions at the ends, empty candidates and empty texts', [St + 'starts/startsSlice.ts', St + 'starts/notStarts.ts', St + 'find/frontOf.ts', St + 'find/behindOf.ts', St + 'spaces/startSpacesLength.ts', St + 'spaces/startTabsLength.ts'], [['startsSlice', St + 'starts/startsSlice.ts'], ['notStarts', St + 'starts/notStarts.ts'], ['frontOf', St + 'find/frontOf.ts'], ['behindOf', St + 'find/behindOf.ts'], ['startSpacesLength', St + 'spaces/startSpacesLength.ts'], ['startTabsLength', St + 'spaces/startTabsLength.ts']]);
    p('S04', 'Trimming removes exactly the blank characters it is asked to remove', 'The strippers of zero-width, space-like and control characters at the front, at the back, or everywhere, remove exactly the leading, the trailing, or all characters of their class and nothing else. The trimmers do so for every combination of their options: front, back or both ends (the blank run there that the options select, and no more), or everywhere in the text; the blank-text test is true exactly for a non-empty text of which nothing would be left (without classes to remove, for the empty text).', INP, 'all strings and all sixteen combinations of the options', 'a class of characters forgotten under one combination of options, an end trimmed that was not asked for, or a character inside the text removed', [St + 'trim/trim.ts', St + 'trim/trimStart.ts', St + 'trim/trimEnd.ts', St + 'trim/trimAll.ts', St + 'spaces/rmZeroWidth.ts', St + 'spaces/rmLikeSpace.ts', St + 'spaces/rmControl.ts', St + 'spaces/isSpaceString.ts'], [['trim', St + 'trim/trim.ts'], ['trimStart', St + 'trim/trimStart.ts'], ['trimEnd', St + 'trim/trimEnd.ts'], ['trimAll', St + 'trim/trimAll.ts'], ['rmZeroWidth', St + 'spaces/rmZeroWidth.ts'], ['isSpaceString', St + 'spaces/isSpaceString.ts']]);
    p('S05', 'Random text always has the promised form', 'Whatever random numbers are drawn, a random letter is one letter of its case (each equally likely for an even random number), a random colour is a hash sign and six upper-case hexadecimal digits, a random number text has exactly as many digits as asked for, and a random boolean is decided evenly by one random number.', ['inputs', 'schedules'], 'every outcome of both random sources, every length asked for', 'a draw that yields a shorter text or a character out of range appears once in many runs', [St + 'random/randomLower.ts', St + 'random/randomUpper.ts', St + 'random/randomHexColor.ts', St + 'random/randomNumber.ts', St + 'random/randomBoolean.ts'], [['randomLower', St + 'random/randomLower.ts'], ['randomUpper', St + 'random/randomUpper.ts'], ['randomHexColor', St + 'random/randomHexColor.ts'], ['randomNumber', St + 'random/randomNumber.ts'], ['randomBoolean', St + 'random/randomBoolean.ts']]);
    NOTES.S05 = 'Proved for every outcome of both random sources for the letters, the colour and the boolean; randomNumber is a bounded stand-in (generated lengths against its contract), not counted as proved. Trusts lib/, the solvers and the assumptions in the evidence file.';
    p('S06', 'Escaped text stands for exactly itself', 'A text turned into a pattern (with any of the accepted flags) finds exactly that text (up to case, with the i flag), at its first place, and nothing else, whatever special characters it holds. Encoding the special characters of a text as entities, by name or by number, and decoding them gives the text back; encoded text holds no angle bracket, no double quote and no bare ampersand; an entity number stands for the character of that number; every entity is decoded once, and text without entities is left unchanged.', INP, 'all texts and flags', 'which special characters meet, and what an encoded text looks like when encoded again, is open-ended', [St + 'regexp/toRegExp.ts', St + 'regexp/toRegExpSource.ts', St + 'character/htmlEntities.ts', St + 'character/constants/htmlEntities.ts'], [['escaping', St + 'regexp/toRegExpSource.ts'], ['entities', St + 'character/htmlEntities.ts'], ['entity table', St + 'character/constants/htmlEntities.ts']]);
    NOTES.S06 = 'All of it is a bounded stand-in: the contracts are evaluated on runs of the real code over generated texts (and over each character up to U+27FF for the entity table); nothing here is counted as proved.';
    p('S07', 'Word positions are those of the characters that are not blank', 'From a position on, the end query gives the index of the last character of the text that is not blank and the start query that of the first one at or behind the position; the word query gives both. Each gives null exactly when nothing but blanks follows the position. The text is looked at only.', INP, 'all strings and positions', 'blank runs at the very end, at the position itself or everywhere', [St + 'words/wordEnd.ts', St + 'words/wordStart.ts', St + 'words/word.ts'], [['wordEnd', St + 'words/wordEnd.ts'], ['wordStart', St + 'words/wordStart.ts'], ['word', St + 'words/word.ts']]);
    NOTES.S07 = 'wordEnd is proved for all strings and positions; wordStart and word, which build a pattern from the position, are bounded stand-ins, not counted as proved. Trusts lib/, the solvers and the assumptions in the evidence file.';
    const Re = 'packages/regexp/src/';
    p('R01', 'Text validators accept exactly what they document', 'The phone number test accepts, at each of its three levels, exactly the numbers of that level (with or without the country prefix), and a stricter level accepts no more than a looser one. The e-mail test accepts exactly the texts of the documented shape with at most 320 characters, at most 64 before the last @ and at most 255 behind it. The tests for Japanese, for Chinese and for East Asian punctuation are true exactly when some character of their set occurs in the text (for Chinese, when asked, only if no kana occurs).', INP, 'all strings (and numbers, for the phone test) and all levels', 'a digit too many, a missing anchor, one character range or a length just past its limit', [Re + 'isChinaPhoneNumber.ts', Re + 'isEmail.ts', Re + 'inChinese.ts', Re + 'inJapanese.ts', Re + 'inChkPunctuation.ts'], [['isChinaPhoneNumber', Re + 'isChinaPhoneNumber.ts'], ['isEmail', Re + 'isEmail.ts'], ['inChinese', Re + 'inChinese.ts'], ['inJapanese', Re + 'inJapanese.ts'], ['inChkPunctuation', Re + 'inChkPunctuation.ts']]);
    p('R02', 'Running several patterns, or one pattern repeatedly, misses nothing', 'For a text that is not empty, the every/some tests over a list of patterns are true exactly when every/some pattern occurs in the text, each time they are asked, whatever the patterns remember of earlier uses; testing nothing on nothing is refused. Executing a fresh pattern over a text returns every match once, in order, as String.matchAll does (the first one alone for a pattern that is not global), also for patterns that match the empty text. Replacing with a list of patterns applies them one after another, each to the result of the previous.', ['inputs', 'histories'], 'all patterns, flags, texts and earlier uses of the patterns', 'stateful patterns and empty matches', [Re + 'testEvery.ts', Re + 'testSome.ts', Re + 'execAll.ts', Re + 'mapReplace.ts', Re + 'matchNextIndex.ts', St + 'multiReplace.ts'], [['testEvery', Re + 'testEvery.ts'], ['testSome', Re + 'testSome.ts'], ['execAll', Re + 'execAll.ts'], ['mapReplace', Re + 'mapReplace.ts'], ['multiReplace', St + 'multiReplace.ts']]);
    NOTES.R02 = 'testEvery, testSome and matchNextIndex are proved for all patterns and texts (whether a pattern occurs in a text is a fixed unknown fact); execAll, mapReplace, multiReplace and asking twice are bounded stand-ins (generated patterns and texts against the contract), not counted as proved. Trusts lib/, the solvers and the assumptions in the evidence file.';
    p('O01', 'Property access reaches exactly the named value and never fails on nothing', 'Reading a property of undefined or null gives undefined instead of an error, and of anything else exactly the value under that key. Following a path of keys gives the value at its end; a missing link on the way, or (when asked) a step that is not an own property, gives undefined.', INP, 'all objects and nullish values, all keys, paths of any length', 'the step that is missing or inherited can be anywhere on a path of any length', [O + 'property/getProperty.ts', O + 'property/getPropertyGetter.ts', O + 'values/getFromPaths.ts'], [['one step', O + 'property/getProperty.ts'], ['path walk', O + 'values/getFromPaths.ts']]);
    p('O02', 'Shallow equality holds exactly when keys and values agree', 'Shallow equality is true exactly when both sides are the same value, or both are objects with equally many own enumerable keys where every key of the first is an own property of the second with the same value (NaN equal to itself, +0 and -0 different).', INP, 'all pairs of objects and nullish values with any number of keys', 'the one differing key can be any of any number of keys, and may be inherited or undefined', [O + 'shallowEqual.ts'], [['comparison', O + 'shallowEqual.ts']]);
    p('O03', 'Key and value listings are complete and in order', 'The key listing returns all own keys of the requested kind; the value listing and the conversion to an array have one entry per key, in key order, made from that key and its value (the converter runs once per key). The inclusion tests are true exactly when all (or, when asked, any) of the given keys or values are among those of the object, and the missing-attribute query lists exactly the given names that are not own keys, in order.', INP, 'all objects with any number of string and symbol keys, all key levels, all queries', 'an off-by-one or a wrong key kind shows only for particular keys of particular objects', [O + 'keys/keys.ts', O + 'values/values.ts', O + 'toArray.ts', O + 'keys/isKeysIncludes.ts', O + 'values/isValuesIncludes.ts', 'packages/util/src/lackAttrs.ts'], [['key kinds', O + 'keys/keys.ts'], ['value listing', O + 'values/values.ts'], ['conversion', O + 'toArray.ts'], ['missing attributes', 'packages/util/src/lackAttrs.ts']]);
    const Co = 'packages/cookie/src/';
    p('C01', 'Cookies are written, split and read without losing or injecting anything', 'Writing a cookie gives its name, an equals sign and the encoded value, then exactly the attributes that were given, in a fixed order; a name or encoded value containing a line break or another character that cannot stand in a header is refused, and a domain or path like that is left out. Splitting a combined Set-Cookie text cuts exactly at the commas in front of a further name and equals sign, not at those inside dates. Reading a Cookie text gives every pair its value (an equals sign in the value included, surrounding quotes removed), ignores parts without an equals sign, and gives back what was written; reading Set-Cookie texts gives each cookie with its attributes.', INP, 'any name, value and attribute values; any text of any length for the readers', 'which characters meet, where equals signs, commas, quotes and line breaks stand, and which attributes are given together is open-ended', [Co + 'cookie/create.ts', Co + 'cookie/parse.ts', Co + 'setCookie/split.ts', Co + 'setCookie/parse.ts', Co + 'setCookie/join.ts'], [['writing', Co + 'cookie/create.ts'], ['reading', Co + 'cookie/parse.ts'], ['splitting', Co + 'setCookie/split.ts'], ['reading Set-Cookie', Co + 'setCookie/parse.ts']]);
    NOTES.C01 = 'Writing a cookie is proved for all names, values and attribute values (each attribute alone, all together valid); mixes of present and absent attributes and the readers (splitSetCookie, parseCookie, parseSetCookie, joinSetCookie) are bounded stand-ins (generated texts against the contract), not counted as proved. Trusts lib/, the solvers and the assumptions in the evidence file (encodeURIComponent and toUTCString are uninterpreted).';
    const Fi = 'packages/fs/src/';
    p('X01', 'Each file helper does the one operation it names and reports its outcome', 'Asking whether a path is a directory, a file or a symbolic link only looks, follows links (except for the last question), answers yes exactly when the look says so and never throws; reading a link gives its target or null. Making a directory, reading and writing a file are one operation on that path with the documented defaults overridden by what was given; writing turns filled arrays and plain objects into JSON unless told not to, makes the directory of the file first when asked and writes nothing when that or the JSON fails. Deleting removes a directory with what is in it, a file or a symbolic link and nothing else, and refuses only when the path is none of these. Whatever operation fails, the call fails; no failure is swallowed and nothing else is touched.', 'whatever the operations of the file system answer, in whatever combination', 'all paths, data and options, all outcomes of every operation of the file system', 'tests meet a healthy file system; a failing operation at each place, or a file that changes between two looks, is never sampled', [Fi + 'isDir.ts', Fi + 'isFile.ts', Fi + 'isSymbolicLink.ts', Fi + 'symbolicLink.ts', Fi + 'mkdir.ts', Fi + 'readFile.ts', Fi + 'writeFile.ts', Fi + 'deleteOne.ts'], [['looking', Fi + 'isDir.ts'], ['making', Fi + 'mkdir.ts'], ['writing', Fi + 'writeFile.ts'], ['deleting', Fi + 'deleteOne.ts']]);
    NOTES.X01 = 'Every helper is proved against an environment in which each operation of fs.promises may fail with anything or succeed with any value of its type (lib/host.js); nothing is assumed about the files. Trusts lib/, the solvers and the assumptions in the evidence file; path.dirname and JSON.stringify are uninterpreted.';
    p('X02', 'Tree operations change what they are asked to change and nothing else', 'Clearing a directory leaves it empty, deleting removes exactly that entry, and neither follows a symbolic link out of the tree. Copying leaves the source alone, and when it succeeds the target holds the content of the source over what was there (files already there only replaced when forced; symbolic links leading to the same place); it fails only over something of another kind or when an operation fails. Copying a file into another directory never harms the source or a directory in its way. Comparing files says yes exactly when both hold the same bytes and leaves no file open. Listing gives every file once, finding gives every directory of the given names outside others found; reading a fragment gives the characters from start to end, both included, or the first line of them.', 'any tree, with one operation of the file system (other than a look at a path) failing at any place', 'trees of any shape with files of any size', 'which entries meet, where a link points and where an operation fails is open-ended', [Fi + 'clearDir.ts', Fi + 'deleteOne.ts', Fi + 'copy.ts', Fi + 'copyFile.ts', Fi + 'diffFile.ts', Fi + 'fileList.ts', Fi + 'findDir.ts', Fi + 'readFragment.ts', Fi + 'copySymbolicLink.ts', Fi + 'destPath.ts'], [['clearing', Fi + 'clearDir.ts'], ['copying', Fi + 'copy.ts'], ['copying one file', Fi + 'copyFile.ts'], ['comparing', Fi + 'diffFile.ts'], ['listing', Fi + 'fileList.ts'], ['finding', Fi + 'findDir.ts'], ['fragment', Fi + 'readFragment.ts']]);
    NOTES.X02 = 'All of it is a bounded stand-in: the contracts are evaluated on runs of the real code over generated trees inside a scratch directory (an operation naming a path outside it is recorded and refused), with an operation other than a look at a path failing at a chosen place; nothing here is counted as proved.';
    const Nu = 'packages/number/src/', Pa = 'packages/path/src/';
    p('A05', 'Arrays, trees and objects built from lists hold every item once and in order', 'Turning a value into an array gives an array itself, an empty list for undefined or null (unless told to keep them) and otherwise the value alone. Flattening gives every leaf of a nested list in order; the depth queries give the deepest list or leaf and the number of dimensions all leaves share at least; the unique values are each value once, as first met; an array-like thing becomes an array of the same items. Turning a list into an object gives every key (other than __proto__) the value of its last item and asks for each key and value once in order. A tree made of items with distinct ids holds every item under its parent, in order, as a copy, in place or wrapped as asked, from the roots down (items whose parent is missing or that lead round in a circle left out, or refused when asked), and changes items only when asked. The sorters rearrange the words by code unit, by first character (of words that are not empty; otherwise as before) or by language, both ways, and list the places in the order of the lengths.', INP, 'all values for the conversion; lists of any length and nesting for the others', 'nesting, repeated keys, orphans and special ids combine without end', [A + 'convert/toArray.ts', A + 'flat.ts', A + 'maxRecursionDepth.ts', A + 'dimension', A + 'uniqueFromPrimitive.ts', A + 'fromArrayLike.ts', A + 'convert/toObject.ts', A + 'convert/toTree.ts', A + 'sort'], [['conversion', A + 'convert/toArray.ts'], ['flattening', A + 'flat.ts'], ['tree', A + 'convert/toTree.ts'], ['sorters', A + 'sort']]);
    NOTES.A05 = 'toArray is proved for all values; the rest is a bounded stand-in (generated lists against the contracts), not counted as proved. Trusts lib/, the solvers and the assumptions in the evidence file.';
    p('N02', 'Numbers written as text stand for the same number', 'The text of a number is the one the language gives it, but keeps the sign of minus zero, and reads back as the same number. The delimiter puts the given text between groups of digits counted from the right in the whole part of a plain decimal number and changes nothing else; what is not a number is refused with a TypeError. The words for an amount of money read back as exactly that amount, whole amounts end in the closing word, and notations other than plain decimals with at most fourteen digits and four decimals are refused with a TypeError. A size in bytes is written in the unit in which it is not too long, to the decimals asked for, in either system.', INP, 'all numbers for the text; plain decimals of any length, delimiters and group sizes, all amounts, all sizes', 'zeros in the middle, special characters in a delimiter, exponent notation and sizes next to a unit limit', [Nu + 'stringify.ts', Nu + 'withDelimiter.ts', Nu + 'amount/amountInWords.ts', 'packages/string/src/bytes/formatBytes.ts'], [['number text', Nu + 'stringify.ts'], ['delimiter', Nu + 'withDelimiter.ts'], ['amount', Nu + 'amount/amountInWords.ts'], ['sizes', 'packages/string/src/bytes/formatBytes.ts']]);
    NOTES.N02 = 'The text of a number and the refusal of texts that are no numbers are proved for all inputs of their contracts; delimiters, amounts, sizes and reading back are bounded stand-ins (generated numbers against the contracts), not counted as proved. Trusts lib/, the solvers and the assumptions in the evidence file (the decimal text of a number is uninterpreted).';
    p('P01', 'Windows paths are recognised and separators unified without harm', 'The Windows path test accepts no path without a drive or dot prefix or with an empty, reserved, dot- or blank-ended part or a part with a forbidden character, accepts every plain path of letters and digits within the length limits, and in the long form accepts whatever the short form does; it answers promptly for every text. The extended-length test is that test and the prefix. Unifying separators turns every backslash into a slash and changes nothing else, and leaves extended-length paths alone.', INP, 'all strings', 'reserved names, trailing dots and blanks and length limits combine, and the time a pattern takes can explode for a rare text', [Pa + 'isWindowsPath.ts', Pa + 'isWindowsExtendedLengthPath.ts', Pa + 'unifiedSeparator.ts', Pa + 'windowsPathSource.ts'], [['pattern', Pa + 'windowsPathSource.ts'], ['separators', Pa + 'unifiedSeparator.ts']]);
    NOTES.P01 = 'The extended-length test and the unifying of separators are proved for all strings, with the Windows path test as a fixed boolean function of the path; that test itself is a bounded stand-in (generated paths against the contract), not counted as proved. Trusts lib/, the solvers and the assumptions in the evidence file.';
    const Ut = 'packages/util/src/';
    p('O04', 'Copies, sorted keys and prototype queries keep everything else as it is', 'A copy without some keys has the prototype and every other own property (kind, value and flags) of the object, which stays as it is; deleting keys gives the object itself without them, or such a copy when one cannot be deleted, and leaves the list of keys alone. Lower-casing keys (other than __proto__) gives each value under its key in lower case, the last or the first of equal ones as asked; sorting keys gives the same plain object or list with keys in the order asked, nested ones too exactly when asked, shared and circular references kept; anything else is refused with a TypeError. An object without prototype has just the properties given. The prototype queries answer for the prototype: a property is the prototype\'s exactly if it can be reached and is no own one, an instance is of a class exactly if the prototype of the class is its direct prototype, the constructor is the one the prototype names, and all own keys are listed.', INP, 'all values for the prototype and key queries; objects of any shape for the others', 'own, inherited, hidden and fixed properties combine without end', [O + 'derive.ts', O + 'deleteAttrs.ts', O + 'keys/toLowerCaseKey.ts', O + 'keys/sortKeys.ts', O + 'createWithNull.ts', O + 'property/isPrototypeProperty.ts', O + 'isInstanceOf.ts', O + 'constructor.ts', Ut + 'allAttrs.ts'], [['copy', O + 'derive.ts'], ['deleting', O + 'deleteAttrs.ts'], ['sorting', O + 'keys/sortKeys.ts'], ['lower case', O + 'keys/toLowerCaseKey.ts'], ['prototype property', O + 'property/isPrototypeProperty.ts']]);
    NOTES.O04 = 'isPrototypeProperty, isInstanceOf, constructor (of things whose prototype is an ordinary object or missing) and allAttrs are proved for all values; copying, deleting, sorting, lower-casing and constructor names are bounded stand-ins (generated objects against the contracts), not counted as proved. Trusts lib/, the solvers and the assumptions in the evidence file.';
    p('O05', 'Paths written as text and JSON text mean what they were made from', 'A list of keys written as a path and read back gives the same keys (names, texts without quotes, backslashes, closing brackets or outer blanks, and places); the list stays as it is. The written path, evaluated, reads exactly those keys whatever characters they hold (a key that is already quoted counts as written so), and reading a value by a path with names, places, quoted keys and keys from dependencies gives the value there; paths with empty, unclosed or unknown keys are refused. The JSON text of a value is the one JSON gives, with plain objects sorted or reduced to the listed keys (texts or numbers) as asked and values replaced by the given function; a circular reference is replaced by the path to its start, or refused when asked, and a repeated one that is no circle is written out.', INP, 'all lists of keys and values of any nesting', 'a quote, a bracket or a line break inside a key, a key in a place where it means something else, a repeated reference', [O + 'cascade/fromCascadeKeys.ts', O + 'cascade/toCascadeKeys.ts', O + 'cascade/cascade.ts', O + 'stringify.ts'], [['writing a path', O + 'cascade/fromCascadeKeys.ts'], ['reading a path', O + 'cascade/toCascadeKeys.ts'], ['JSON', O + 'stringify.ts']]);
    NOTES.O05 = 'All of it is a bounded stand-in: the contracts are evaluated on runs of the real code over generated lists of keys and values; nothing here is counted as proved.';
    p('T04', 'Name, date, number, address and shape predicates accept what they document', 'The variable name test accepts exactly the identifiers that are no reserved word; the date test exactly what a valid date can be made from (never throwing); the address test exactly what parses as an address; the number test exactly what turns into a number as its options allow; the every and some tests exactly when all tests hold for all, or for one, of the values. The sparse test is true exactly for a list with a hole, the array-like test exactly for objects that are no lists, whose length is a valid one and, when asked, with as many numbered keys and no others, or no gap among them. The buffer-list test is true exactly for filled lists of buffers, the native and bound tests exactly for built-in and bound functions, the prototype tests exactly for the prototype of its constructor and for objects on the chain.', INP, 'every value, every option', 'a character, a word, a limit or a combination of options that is answered wrongly is one in a great many', [Ty + 'variable/isVarName.ts', Ty + 'date/isDateValid.ts', Ty + 'url/isURLString.ts', Ty + 'number/isNumberValid.ts', Ty + 'cmp/isEvery.ts', Ty + 'cmp/isSome.ts', Ty + 'array/isArraySparse.ts', Ty + 'array/isArrayLike.ts', Ty + 'buffer/isBufferArray.ts', Ty + 'function/isNativeFunction.ts', Ty + 'function/isFunctionBound.ts', Ty + 'property/isPrototype.ts'], [['names', Ty + 'variable/isVarName.ts'], ['dates', Ty + 'date/isDateValid.ts'], ['array-likes', Ty + 'array/isArrayLike.ts'], ['numbers', Ty + 'number/isNumberValid.ts']]);
    NOTES.T04 = 'All of it is a bounded stand-in: the contracts are evaluated on runs of the real code over generated values; nothing here is counted as proved.';
    p('S08', 'Reworked text changes only where the helper says', 'Half-width conversion replaces each full-width character (U+FF01 to U+FF5E other than the seven Chinese marks that stay, and the ideographic space) by its ASCII counterpart and leaves every other character. Adding spaces puts exactly one space between each match (as rewritten by the handler, which gets every match once) and a neighbouring character that is neither punctuation nor a space, for patterns with and without groups. Trying several patterns gives the match of the first one in the list that occurs, or null. Parsing JSON text resolves to the value it stands for (the reviver asked as JSON asks it) and rejects what is no JSON.', INP, 'all texts and patterns', 'which characters meet, and which groups a pattern has, is open-ended', [St + 'corrector/basic/fullWith.ts', St + 'spaces/subSpaces.ts', St + 'match/matchOrder.ts', St + 'parseJson.ts'], [['halfWidth', St + 'corrector/basic/fullWith.ts'], ['subSpaces', St + 'spaces/subSpaces.ts'], ['matchOrder', St + 'match/matchOrder.ts'], ['parseJson', St + 'parseJson.ts']]);
    NOTES.S08 = 'All of it is a bounded stand-in: the contracts are evaluated on runs of the real code over generated texts and patterns (sticky ones left out); nothing here is counted as proved.';
    p('O06', 'A deep copy is equal to the original and shares nothing with it', 'A copy of a value made of plain and prototype-less objects, lists (holes kept), primitives, boxed values, valid dates, patterns, typed arrays, buffers, views, errors, addresses, and maps and sets of primitives is deeply equal to it, with the same own properties, kinds of property and references among its parts (cycles included), and no object of the one is reachable from the other; the original stays as it is. Copying attributes over gives the very destination holding a value for every key of the source (only the missing ones when asked), shares nothing with the source and leaves it alone.', INP, 'all such values, cyclic ones included', 'one forgotten kind of value, or one shared inner object, shows only in particular nested values', [Ut + 'copy.ts', Ut + 'copyAttrs.ts', Ut + 'lackAttrs.ts', Ut + 'allAttrs.ts'], [['copy', Ut + 'copy.ts'], ['copyAttrs', Ut + 'copyAttrs.ts']]);
    NOTES.O06 = 'All of it is a bounded stand-in: the contracts are evaluated on runs of the real code over generated values (primitive symbols, accessors, functions and custom classes left out); nothing here is counted as proved.';
    p('O07', 'The source text of a value evaluates to an equal value', 'The text made of a value of plain and prototype-less objects, lists (holes kept), primitives, boxed values, valid dates, patterns, typed arrays, buffers, errors, addresses and maps and sets of primitives is a JavaScript expression; evaluated, it gives a deeply equal value, whatever characters its texts and keys hold. Where an object or list holds itself, the text marks the cycle (and only there), and making the text always ends. The value stays as it is.', INP, 'all such values', 'quotes, separators, signed zero, holes and special keys can be anywhere in a nested value', [Ut + 'stringify.ts'], [['stringify', Ut + 'stringify.ts']]);
    NOTES.O07 = 'All of it is a bounded stand-in: the contracts are evaluated on runs of the real code over generated values; nothing here is counted as proved.';
    const Rq = 'packages/request/src/request/';
    p('Q01', 'A request is sent once, as given, and its answer comes back complete', 'For every address (text, URL object or options) exactly one request goes to that host, port and path, with every query value once and in order behind those of the address, the method in capitals, header names in lower case with the values of the caller winning over the defaults, and the credentials given. A body arrives as the bytes it means (text, JSON, url-encoded, multipart fields and files, buffers and windows into them) with its length in bytes. The answer is collected completely and unpacked (gzip, deflate with and without header, brotli) however it is cut into chunks; handlers see the head once and every byte once, and may stop it. A request that cannot be made or fails rejects with an error.', ['inputs', 'schedules'], 'all addresses, options, bodies and answers', 'queries, headers, encodings and chunk boundaries combine, and tests need a network', [Rq + 'request.ts', Rq + 'options.ts', Rq + 'headers.ts', Rq + 'body.ts', Rq + 'formData.ts', Rq + 'content.ts'], [['request', Rq + 'request.ts']]);
    NOTES.Q01 = 'All of it is a bounded stand-in: the contracts are evaluated on runs of the real code with the http and https modules replaced by stand-ins that record what is sent and answer from a list; no connection is made; nothing here is counted as proved.';
    p('Q02', 'Redirects are followed faithfully and hand no secrets to other hosts', 'A redirected request goes, one at a time, to each location given (resolved against the address before it, relative ones included) up to the limit, and the last answer alone is the result and reaches the handlers. Once a location names another host, neither cookies nor authorization nor credentials are sent any more; the same host gets every header and the credentials as given. Method and body are kept, but a POST answered with 301 or 302 becomes a GET without body. The options of the caller stay as they are, and a location that is no address rejects the request instead of crashing.', ['inputs', 'histories'], 'all chains of redirects', 'which hop leaves the host, and what is sent afterwards, depends on the whole chain', [Rq + 'request.ts', Rq + 'options.ts', Rq + 'headers.ts', Rq + 'body.ts', Rq + 'formData.ts', Rq + 'content.ts'], [['request', Rq + 'request.ts']]);
    NOTES.Q02 = NOTES.Q01;
};
