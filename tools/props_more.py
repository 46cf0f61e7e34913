prop("C20", "Function holds one callable at a time and destroys each exactly once",
     "A ke::Function calls the callable last given to it, with the arguments forwarded (moved arguments are not copied, nor are callables moved in), and is "
     "empty if it was given none, null, or an empty Function; copies are independent, and moving leaves the source empty. "
     "Through any sequence of construction, assignment (also from callables, of itself, of functions within functions, and of what its own callable owns), moving and "
     "hand-over between threads, each callable is destroyed exactly once. If copying a callable throws or memory runs out, the exception "
     "gets out, nothing leaks, and the target holds either its old callable or none.",
     ["fault_sequences", "programs", "histories"],
     "every sequence of operations on callables of any size, with any copy or allocation failing",
     "Tests sample a few sequences; neither a throwing copy nor a failing allocation occurs in them.",
     ["amtl/am-function.h"],
     [("inline or heap holder", "amtl/am-function.h: Function::assign, move, destroy, zap"),
      ("cloning", "amtl/am-function.h: impl::FunctionHolder")])

prop("C22", "Maybe holds at most one value and destroys each exactly once",
     "A Maybe has a value exactly if the last init, Some or assignment gave it one, and it is that value, at an address aligned for its type; copies are independent, values moved in are not copied, "
     "and a moved-from Maybe is empty. Through any sequence of init, copy, move, assignment (also of itself) and destruction, every value "
     "constructed is destroyed exactly once, and if constructing one throws, the exception gets out and the Maybe is empty or as "
     "before.",
     ["fault_sequences", "programs", "histories"],
     "every sequence of operations with any construction of a value throwing",
     "No test covers Maybe itself, nor values whose construction fails or whose life cycle is tracked.",
     ["amtl/am-maybe.h", "amtl/am-storagebuffer.h"],
     [("life cycle", "amtl/am-maybe.h: Maybe::init, operator=, copyFrom, moveFrom, ~Maybe")])

prop("C21", "PriorityQueue gives back every element once, most urgent first",
     "Every element added to a PriorityQueue is popped exactly once, or destroyed with the queue; pop and peek always give an element that none in "
     "the queue precedes, by the comparator the queue was made with. Elements are moved, not copied, when popped, added by moving, or "
     "when the queue itself is moved. If memory runs out or constructing the element throws during add or emplace, the exception gets out "
     "and the queue is as before (and an element that was to be moved in is still its owner's); moving an element is taken not to throw. Lookups may run in several threads at once.",
     ["fault_sequences", "histories", "schedules"],
     "every history of operations by several threads (under a lock), with any allocation or element construction failing",
     "The one test adds and pops a short sequence of integers; nothing fails in it.",
     ["amtl/am-priority-queue.h"],
     [("binary heap", "amtl/am-priority-queue.h: add, emplace, pop, propagateUp, propagateDown")])

prop("C23", "Vector and deque helpers keep every element, in order, also when they fail",
     "PopBack and PopFront remove and return exactly that element; RemoveAt, InsertAt, EmplaceAt and EraseIf remove or insert exactly the "
     "elements asked for (also when the value inserted is an element of the same vector) and keep the others in order; MoveExtend "
     "appends all elements of one vector to another in order and empties the first. Nothing is copied that can be moved. If memory "
     "runs out or copying an element throws, the exception gets out, an insertion leaves the vector as before, and each element of a "
     "MoveExtend is in exactly one of the two vectors.",
     ["fault_sequences", "histories", "schedules"],
     "every history of operations by several threads (under locks), with any allocation or element construction failing",
     "Tests move and insert a few integers; nothing fails in them, and no life cycle is tracked.",
     ["amtl/am-vector.h", "amtl/am-deque.h"],
     [("vector helpers", "amtl/am-vector.h: MoveExtend, PopBack, RemoveAt, InsertAt, EmplaceAt, EraseIf"),
      ("deque helpers", "amtl/am-deque.h: PopBack, PopFront")])

prop("C24", "InlineList links exactly the nodes put into it",
     "An InlineList contains exactly the nodes appended and not since removed, in order, walking forward and backward (also while erasing "
     "through either iterator), and empty() and length() agree with that. A node that was removed, erased or removed itself is in no list, "
     "says so, and can be appended to any list again; so is and can a copy of a node; a copy of a list, if one can be made, holds no nodes. Threads that share lists under a lock, and threads that die between operations, do "
     "not change this.",
     ["histories", "schedules", "crash_points"],
     "every history of appends, removals, erasures and moves between lists by several threads",
     "Tests script two short sequences on one list.",
     ["amtl/am-inlinelist.h"], [("links", "amtl/am-inlinelist.h: append, remove, erase, removeFromParentList")])

prop("C25", "String building helpers give the whole result or none",
     "Split cuts a string at every occurrence of the separator and Join puts pieces together again, so that Join(Split(s, sep), sep) equals s; "
     "Lowercase and Uppercase change exactly the ASCII letters; StartsWith, EndsWith and StrCaseCmp answer for the whole strings given, ignoring case "
     "exactly where they say so. All read only the strings they are given, may run in several threads on the same strings, and if memory runs out "
     "the exception gets out: never is a piece missing or cut short, and nothing leaks.",
     ["fault_sequences", "inputs", "schedules"],
     "every string and separator, with any allocation failing, in several threads at once",
     "Tests compare a few short strings; no allocation fails in them and none would notice a read beyond the end.",
     [ST], [("splitting and joining", ST + ": Split, Join"), ("case and affixes", ST + ": Lowercase, Uppercase, StartsWith, EndsWith, StrCaseCmp")])

prop("C26", "The argument parser assigns what the command line says, parse after parse",
     "Each parse gives every option and positional argument the value the command line says (or its default; the first separator ends the name, "
     "the value may contain others), collects extra and passed-through "
     "arguments in order, and fails with a message naming the culprit exactly if an argument is unknown, malformed, repeated or missing. "
     "After reset() a parser is as new, whatever was parsed before and however that failed, running out of memory included (then the "
     "exception gets out and nothing leaks). usage() shows every option, its help, and the last error. Several parsers may be "
     "used by several threads.",
     ["histories", "fault_sequences", "inputs", "schedules"],
     "every set of declarations and every history of parses, resets and help texts, with any allocation or write failing",
     "Each test parses one or two command lines with a fresh parser; nothing fails in them.",
     ["amtl/experimental/am-argparser.h", "amtl/experimental/am-argparser.cpp"],
     [("parsing", "amtl/experimental/am-argparser.h: Parser::parse_impl"), ("options", "amtl/experimental/am-argparser.h: IOption, Option, RepeatOption"),
      ("help", "amtl/experimental/am-argparser.h: Parser::usage")])

prop("C27", "Time stamps convert exactly, and are formatted whole or not at all",
     "Whatever a clock reads (before 1970 and beyond 32 bits included, as far as 64-bit nanoseconds go), converting the timespec or epoch value to a "
     "duration or time point loses nothing that the clock's own ticks can hold, so readings keep their order and distance also when the clock jumps. "
     "FormatTime gives the text that put_time gives for the broken-down time and format, whole; if memory runs out the exception gets out and "
     "nothing leaks. Several threads may format at once.",
     ["fault_sequences", "inputs", "schedules"],
     "every sequence of readings of a clock that jumps, and every format, with any allocation failing, in several threads at once",
     "The one test converts one small time; FormatTime is not tested, the clock never jumps, no allocation fails.",
     ["amtl/am-time.h"],
     [("conversions", "amtl/am-time.h: TimespecToDuration, TimespecToTimePoint, EpochValueToTimePoint"), ("formatting", "amtl/am-time.h: FormatTime")])

PURE = ("Purely sequential: a function of its arguments alone, with no thread, clock, I/O, failure or other party whose "
        "behaviour a simulator could vary. Deciding it would be plain input generation, which is another technique.")

prop("C41", "Bit and arithmetic helpers compute their mathematical function",
     "Log2, Align, IsPowerOfTwo, FindRightmostBit and the overflow-checking helpers return the mathematically right answer for every value "
     "of every integer type they accept.",
     ["inputs"], "every argument value", "Tests sample a few values.",
     ["amtl/am-bits.h", "amtl/am-arithmetic.h"], [("helpers", "amtl/am-bits.h")], na=PURE)
prop("C42", "Float classification is right",
     "IsNaN, IsInfinite and the bit decompositions classify every float and double correctly.",
     ["inputs"], "every value", "Tests sample none.", ["amtl/am-float.h"], [("classification", "amtl/am-float.h")], na=PURE)
prop("C43", "Flag sets behave as sets",
     "Combining, testing and removing Flags is set union, membership and difference on the flag values, and enum operators "
     "compute the same as on the underlying integers.",
     ["inputs"], "every combination of flags", "Tests sample a few.", ["amtl/am-flags.h", "amtl/am-enum.h"],
     [("operators", "amtl/am-flags.h")], na=PURE)
prop("C47", "Hash functions are consistent",
     "The string and integer hash functions depend only on the bytes given, so equal keys hash equally.",
     ["inputs"], "every key", "Tests sample none.", [HT], [("hashers", HT + ": HashCharSequence, HashInteger")], na=PURE)
