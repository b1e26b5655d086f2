#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ALLSYS = ["src/digital.rs", "src/additive.rs", "src/chinese.rs", "src/ethiopic.rs", "src/hebrew.rs", "src/enumerated.rs"]

p("C01", "Formatting is all-or-nothing when memory runs out",
  "Wherever memory runs out during a fallible formatting call (the fixed buffer fills up in a build without heap support, or any heap request is refused in a build with it), the call either returns the number's complete representation or fails with the out-of-memory error carrying exactly the number that was asked for. "
  "It never returns a partial or altered text, never panics or aborts, and never reports running out of memory when no memory was refused. "
  "Numbers a system cannot represent get that system's own error.",
  ["inputs", "fault_sequences", "configurations"],
  "every built-in and caller-defined numbering system, every unsigned integer width and value, both builds, every point at which the buffer is full or a heap request is refused (once, several times, or for good)",
  "No test makes an allocation fail or builds the crate without alloc and runs it; the out-of-memory branches (one per symbol appended, in every system) are never taken by the existing tests.",
  ALLSYS + ["src/lib.rs", "src/nominalstring.rs"],
  [("every append is fallible and its failure is mapped to OutOfMemory(nominal)", "src/digital.rs try_format_nominal; src/additive.rs try_format_nominal; src/chinese.rs format_*; src/ethiopic.rs format_ethiopic; src/hebrew.rs try_format_nominal"),
   ("WithNominal::with_nominal attaches the original number", "src/lib.rs"),
   ("growth past the inline buffer", "src/nominalstring.rs MaybeInline::{push,push_str,push_front}")],
  observe=["result of try_to_nominal / try_format_nominal", "heap requests seen by the global allocator"])

p("C02", "Infallible formatting always answers, falling back to decimal",
  "The infallible formatting call returns a text for every number and system whatever fails underneath: the number's complete representation in that system or, if the system cannot represent it or memory was refused part-way, exactly the number's decimal digits. "
  "The fallback itself needs no heap, so it is produced even while every heap request is being refused, and converting any formatting error to text by hand gives that same decimal text. "
  "Formatting through a boxed or reference-counted system gives the same answer as formatting with the system itself.",
  ["inputs", "fault_sequences", "configurations"],
  "every system (directly and behind Box/Rc/Arc), every width and value, both builds, every memory-refusal sequence",
  "The tests exercise the fallback for one value (0 in a one-based alphabet) with memory always available.",
  ["src/lib.rs"] + ALLSYS,
  [("NominalSystem::format_nominal default body, UnwrapOrDecimal, Error::into_decimal", "src/lib.rs"),
   ("forwarding impls for Box/Rc/Arc<dyn NominalSystem>", "src/lib.rs")],
  observe=["result of to_nominal / format_nominal / unwrap_or_decimal / into_decimal"])

p("C03", "The nominal string tracks an ordinary string over any history",
  "After any history of construction, appends, prepends, in-place edits, clones, comparisons and conversions, including steps refused for lack of memory at any point, a nominal string holds exactly the text an ordinary string would hold had only the accepted steps been applied to it; a refused step leaves it untouched and usable. "
  "A string created for prepending is indistinguishable from an ordinary one in every observable result, and the contents are always valid Unicode text. "
  "A string reports being inline whenever its text never exceeded the inline capacity (unless it was adopted from an existing heap string), and never while its text exceeds it.",
  ["histories", "inputs", "fault_sequences", "configurations"],
  "all operation sequences over several live strings, all text/char sizes around the 62-byte boundary, forward and reverse layout, both builds, allocation refusals at any step",
  "The tests run two fixed short sequences of ASCII pushes; they never mix layouts with multi-byte characters at the boundary, never refuse memory, and the spill-over tests never start from a reverse string.",
  ["src/nominalstring.rs"],
  [("InlineString push/push_str/push_front for both layouts", "src/nominalstring.rs"), ("spill from inline to heap", "src/nominalstring.rs MaybeInline")],
  state=[("length", "inline length plus the reverse-layout bit", "src/nominalstring.rs InlineString"), ("bytes", "62 possibly uninitialised bytes", "src/nominalstring.rs InlineString")],
  observe=["deref to str", "is_inline", "Eq/Ord", "Display", "try_into_string / String::from"])

p("C04", "Text that fits inline never needs the heap",
  "As long as a text stays within the documented inline capacity of 62 bytes, building it, extending it at either end, editing, copying, comparing and displaying it, and formatting any number into it, makes no heap request at all. "
  "All of these therefore succeed with their normal results while the heap refuses every request.",
  ["inputs", "histories", "fault_sequences"],
  "every system, width and value whose representation is at most 62 bytes, and every string operation history staying within 62 bytes, under a heap that refuses everything",
  "No test observes heap requests; an accidental allocation changes no test result.",
  ["src/nominalstring.rs"] + ALLSYS,
  [("inline buffer of INLINE_CAPACITY bytes", "src/nominalstring.rs MaybeInline"), ("formatting appends straight into the string", "all systems")],
  observe=["heap requests counted at the global allocator"])

p("C05", "Heap memory is conserved across failures and unwinding",
  "Over any history of formatting calls and string operations, including ones that fail for lack of memory or are unwound by a panic in caller-supplied code, every heap block obtained is released exactly once with the layout it was obtained with, no byte outside a live block is written, and once the resulting strings are dropped nothing remains allocated.",
  ["histories", "fault_sequences", "inputs"],
  "all histories of formatting, growth, clone, conversion and drop with memory refusals and caller panics at any point",
  "Tests do not count allocations, never fail one and never unwind through the library.",
  ["src/nominalstring.rs", "src/digital.rs", "src/chinese.rs"],
  [("ownership of the spilled text", "src/nominalstring.rs MaybeInline::Heap"), ("try_into_string moves the text out", "src/nominalstring.rs")],
  observe=["allocator ledger (size, alignment, canaries, live set)"])

p("C06", "Concurrent callers never affect each other's results",
  "However the executions of several callers interleave while they format numbers with the same shared systems or use their own strings, each call returns exactly what it would return if it ran alone. "
  "This includes one caller being suspended at any instruction of a call while others make any number of complete calls, and calls made from inside caller-supplied code that the library itself is calling.",
  ["schedules", "inputs", "histories"],
  "all interleavings of several callers at basic-block and memory-access granularity (sequentially consistent), including re-entrant calls, over all systems, widths and values",
  "Every test is a single call sequence on one thread; any hidden shared state is only visible when calls overlap.",
  ALLSYS + ["src/lib.rs", "src/nominalstring.rs"],
  [("systems are stateless values; digit tables are immutable statics", "src/digital.rs impl_digit_set!; src/chinese.rs tables"), ("per-call state is carried in locals and &mut arguments", "src/chinese.rs last_char_is_zero")],
  observe=["result of each call against the result of the same call alone"])

p("C07", "Earlier calls and their failures leave no trace in later ones",
  "The result of a formatting call depends only on the system, the number and whether memory is refused during that very call. "
  "No sequence of earlier calls, however long and however they ended (success, any formatting error, memory refusal, a panic in caller-supplied code, a failing output sink), changes what a later call returns or makes it fail.",
  ["histories", "fault_sequences", "inputs"],
  "all call histories over all systems and widths, with memory refusals, caller panics and sink errors at any point",
  "Each test makes a handful of successful calls in a fresh process; none continues after a failure.",
  ALLSYS + ["src/lib.rs", "src/nominalstring.rs"],
  [("no mutable state outside the call", "whole crate")],
  observe=["result of every call in a long mixed history"])

p("C08", "Displaying a string honours a failing or stalling output sink",
  "Writing a nominal string to any output sink delivers exactly what writing the same ordinary text would deliver under the same width, fill, alignment and precision. "
  "If the sink fails at any point, the failure is reported to the caller, nothing is written after it, what was delivered before is a prefix of the full output, and the string is unchanged so that a retry on a healthy sink delivers the full output. "
  "Displaying makes no heap request.",
  ["fault_sequences", "inputs", "histories"],
  "every text (inline forward, inline reverse, heap), every format specification, every byte or call at which the sink fails or panics",
  "Tests compare strings directly and never write to a sink that fails.",
  ["src/nominalstring.rs"],
  [("Display for NominalString", "src/nominalstring.rs"), ("Debug for MaybeInline", "src/nominalstring.rs")],
  observe=["bytes accepted by the sink", "fmt result", "heap requests"])

p("C09", "Builds with and without heap support agree",
  "For every system and number, a build without heap support returns the same text or the same error as a build with it whenever the representation fits in 62 bytes, and fails with the out-of-memory error carrying that number exactly when it does not; its infallible call then returns the decimal digits. "
  "String operations behave the same in both builds until the text would exceed 62 bytes, where the build without heap support refuses the step and keeps the text unchanged.",
  ["configurations", "inputs", "histories"],
  "every system, width and value, and every string operation history, run in lockstep in both builds",
  "The test suite runs with all features only; the other build is only type-checked.",
  ["src/nominalstring.rs", "src/lib.rs"] + ALLSYS,
  [("cfg(feature = \"alloc\") branches", "src/nominalstring.rs MaybeInline::{push,push_str,push_front}, From<&str>")],
  observe=["results of both builds on the same history"])

p("C10", "Formatting stops promptly: bounded work, also when memory runs out",
  "Every formatting call finishes after a number of steps proportional to the text it produces, or to the memory it managed to obtain before memory was refused, whatever the size of the number. "
  "Once memory is refused for good, the call returns within a bounded number of further steps, and no input makes a call run forever.",
  ["inputs", "fault_sequences"],
  "every system (including caller-defined ones with empty or one-digit collections), width and value, and every memory budget",
  "Tests use small numbers and unlimited memory, so a call that keeps looping after a refusal or loops once per unit of the number is not noticed.",
  ALLSYS + ["src/lib.rs"],
  [("refusals propagate out of the formatting loops", "src/additive.rs; src/digital.rs; src/hebrew.rs; src/ethiopic.rs"), ("OutOfBounds for collections that cannot represent the number", "src/digital.rs")],
  observe=["simulated step clock (executed basic blocks of the library) per call"])

p("C11", "A caller that stops mid-call never blocks another",
  "If a caller is suspended or dies at any instruction inside a call into the library, every other caller's calls still complete, with their normal results and within their normal bound of work.",
  ["schedules", "crash_points", "inputs"],
  "every point at which one or more callers stop for good inside formatting or string operations, while others keep calling",
  "No test overlaps calls, let alone stops one half-way.",
  ALLSYS + ["src/lib.rs", "src/nominalstring.rs"],
  [("no locks, once-cells or in-progress flags", "whole crate")],
  observe=["completion and step count of the surviving callers' calls"])

p("C12", "A panic in caller-supplied code is contained",
  "If a caller-supplied digit collection or numbering system panics at any of the moments the library calls into it, that very panic reaches the caller of the formatting call; it is not swallowed, replaced or turned into an abort. "
  "Nothing stays allocated, the objects involved remain usable, and the same call repeated without the panic returns its normal result.",
  ["fault_sequences", "inputs", "histories"],
  "every callback invocation of every adapter and wrapper combination (one-based, chained, restricted, fallback, boxed) at which the panic can occur",
  "No test supplies a panicking implementation.",
  ["src/digital.rs", "src/lib.rs"],
  [("no catch, no unsafe around callbacks", "src/digital.rs try_format_nominal, Chain, Restrict, OneBased"), ("forwarding impls for Box/Rc/Arc", "src/lib.rs")],
  observe=["panic payload at the call boundary", "allocator ledger", "repeat call"])

p("C13", "Caller-supplied collections are only asked for digits they have",
  "While formatting, a caller-supplied digit collection is only asked for digits below the length it most recently reported, also when other callers make the collection longer at any moment during the call, and also through one-based, chained and restricted views of it. "
  "A collection that reports being empty is never asked for a digit; a number it cannot represent is reported as an error rather than a panic.",
  ["schedules", "inputs", "histories"],
  "every collection length (0, 1, around 256, large), width, value, adapter stack, and every moment at which another caller grows the collection",
  "Tests only use the built-in immutable collections with small values.",
  ["src/digital.rs"],
  [("index taken modulo the reported length", "src/digital.rs try_format_nominal"), ("index split between the two halves", "src/digital.rs Chain::digit")],
  observe=["sequence of len/digit calls received by the collection"])

# ---- pure functions of the input: listed, not decided by this technique ----
PURE = "Exhaustive correctness over all values cannot come from the handful of samples in the tests."
p("P01", "Positional systems are exact base-N numerals",
  "For every number, a positional system with N digits produces its base-N numeral without leading zeros, so that distinct numbers get distinct texts and the number can be read back.",
  ["inputs"], "all values, widths and digit sets with a zero digit", PURE, ["src/digital.rs"], [("repeated division", "src/digital.rs")])
p("P02", "Alphabetic systems count bijectively",
  "Counting upwards in an alphabetic system enumerates all non-empty words over its symbols in order of length then symbol order, starting at zero or at one as configured, with zero rejected when one-based.",
  ["inputs"], "all values, widths and zeroless digit sets", PURE, ["src/digital.rs"], [("bijective numeration", "src/digital.rs"), ("OneBased", "src/digital.rs")])
p("P03", "Additive systems denote exactly the number",
  "The values of the symbols an additive system (Roman, Armenian, Georgian, Japanese, Korean, Hebrew) outputs sum to the number, greedily from the largest, or the number is rejected.",
  ["inputs"], "all values, widths and symbol sets", PURE, ["src/additive.rs", "src/hebrew.rs"], [("greedy subtraction", "src/additive.rs, src/hebrew.rs")])
p("P04", "Chinese numerals follow the counting rules of their scale",
  "Chinese numerals read back to the number under the selected scale, usage and formality, with zero markers exactly where digits are skipped and an out-of-bounds error where the scale has no name.",
  ["inputs", "configurations"], "all values, widths, four scales, two usages, four systems", PURE, ["src/chinese.rs"], [("rank recursion", "src/chinese.rs")])
p("P05", "Ethiopic numerals follow the pairwise algorithm",
  "Ethiopic numerals equal the result of the CSS counter-styles algorithm for every positive number.",
  ["inputs"], "all values and widths", PURE, ["src/ethiopic.rs"], [("two-digit groups", "src/ethiopic.rs")])
p("P06", "Finite sets are total on their range and reject the rest",
  "Enumerated and fixed digit sets map each number of their range to its symbol, use their documented fallback or report out-of-bounds beyond it, and report zero as having no symbol where they start at one.",
  ["inputs"], "all values, widths and sets", PURE, ["src/enumerated.rs", "src/digital.rs"], [("bounds checks", "src/enumerated.rs, src/digital.rs")])
p("P07", "The integer width does not matter",
  "A number formats identically whichever unsigned integer type carries it.",
  ["inputs"], "all values representable in two widths, all systems", PURE, ALLSYS, [("generic arithmetic over UnsignedInteger", "src/lib.rs")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
