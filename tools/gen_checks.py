#!/usr/bin/env python3
"""Source of tools/checks.json: technique and level note of each check."""
import json
E = "exhaustive enumeration of bounded inputs through the real code (stateless model checking) against "
c = {}
def k(i, t, n): c[i] = dict(technique=t, note=n)
k("C01", "exhaustive enumeration of bounded strings through every entry point of the real code (stateless model checking)",
  "Every string within the bounds goes through every string-taking entry point of the real library. Longer strings over other alphabets are not covered; a hang is a call of 40 s.")
k("C02", E + "a reference calendar",
  "All 7.3 million Level 0 dates of years -9999..9999 are parsed and compared with a hand-written calendar: complete for the property as stated.")
k("C03", E + "a reference calendar",
  "Every impossible month and day for years of every kind, and the critical ones for all 19,999 years, in every place a date can have. Sets and intervals of more than three parts are not covered.")
k("C04", E + "a reference calendar in seconds",
  "Edge dates and times with every shift of the day, every year's edges with shifts of every kind, and every second of a day. Not the full product of days, times and shifts.")
k("C05", E + "a reference model of intervals",
  "Every end of every form on either side with ends of every kind on the other; all pairs of ends in the thorough tier. Ends are built from years of every kind and, for the plain forms, from all years.")
k("C06", E + "brute-force filling-in of the X digits",
  "Every year of digits and X with months and days at the edges, and every month and day of digits and X with years of 13 kinds; the thorough tier takes every year, month and day of digits and X.")
k("C07", E + "a reference model of qualification marks",
  "Every placement of marks on each side of each component for years of every kind, and each single mark for all years. Marks at both ends of an interval come from one list.")
k("C08", E + "a table of month groups",
  "All years crossed with all codes and all spellings: complete for the property as stated, except that letter-case choices are crossed with some years only.")
k("C09", E + "a reference model of sets",
  "All sets of up to four members (five in the thorough tier) out of lists of dates of every sign and precision, in every order, with every separator, bracket and open end.")
k("C10", E + "a reference model of year arithmetic",
  "All years as plain, prefixed and significant-digit years, every mantissa up to 12000 with small exponents and up to 1010 with exponents to 400, and numbers of every size up to 1000 digits at selected values.")
k("C11", E + "a grammar of each level, and against each other entry point",
  "All bounded strings (edits of strings of every feature, short strings over the EDTF alphabet, products of features). Strings that two levels may claim are only checked for consistency.")
k("C12", E + "a generous grammar of EDTF shapes",
  "All strings within one or two edits of strings of every feature, all short strings, and all concatenations of features. The grammar is generous: a string it takes for EDTF may be rejected or accepted.")
k("C13", "exhaustive enumeration of parse results of bounded inputs; each is written, read and written again by the real code, and compared",
  "Results of strings of every feature, of every year, and of instants around the epoch. JSON documents not written by the library are covered for timestamps only.")
k("C14", "exhaustive enumeration of parse results of bounded inputs, with an invariant on every bound",
  "Every bound of the result of every enumerated string: all features, all years, all masks of some years. The invariant recomputes instants with a hand-written calendar.")
k("C15", E + "interval arithmetic on the reference model's spans",
  "All pairs and triples out of strings of every feature, and all days around month, year and era boundaries pairwise. Dates outside the lists are not paired.")
k("C16", E + "the reference model's bounds",
  "All bounded strings, all years in every kind of string, and bounds around the epoch; the derived ranges are compared with the parsed bounds and with the model.")
k("C17", "exhaustive enumeration of bounded call histories with caller mutations, each in a process of its own, against answers of fresh processes",
  "All ordered pairs and triples of calls out of lists that cover every entry point and feature, and long histories in several orders. Histories beyond those lengths are covered for selected orders only.")
k("C18", "preemption-bounded exhaustive schedule exploration of the instrumented real code under a deterministic scheduler, with the data-race detector",
  "All pairs of calls with every single preemption at any statement, and up to three preemptions at statements that touch package variables. More threads or preemptions are not covered; the standard library is atomic.")
k("C19", E + "a reference model of error classes",
  "Every constructor with labels and strings of every kind, every unspecified first digit, years beyond 9999 of every length to 40 digits, and all bounded strings.")
k("C20", "explicit-state search of the real flag values: all reachable states and all transitions, and all bounded histories",
  "All 512 reachable sets with all operations, found by breadth-first search to a fixed point: complete for the property as stated.")
k("C21", E + "a hand-written calendar",
  "All months of all years as numbers and text, all days of all years with impossible neighbours: complete for the numeric part; non-numeric texts come from lists.")
k("C22", "exhaustive enumeration of bounded argument lists, each given to the real programs and compared with the library linked into the check",
  "All lists of up to two arguments (three from a smaller list), every feature, odd strings, and lists of up to 3000 arguments. The programs are built from the tree by the check.")
k("C23", "exhaustive enumeration of a bounded corpus through the real WebAssembly modules under Node, against the native build",
  "The seeds, edge forms and their neighbours go through both modules, in turn and at once. Only Go's own WebAssembly targets; TinyGo's is not installed.")
k("C24", "exhaustive enumeration of configurations: every installed time zone, each in a process of its own, against the answers given in UTC",
  "600 zones times 11,904 calls, which include each zone's own offsets as shifts. Zones are set by the TZ variable.")
k("C25", "exhaustive enumeration of short strings through the real code against the keyword table",
  "Every string of at most seven letters of the keywords and some others, two edits of each keyword, all letter cases, and strings of every feature.")
k("C26", "exhaustive enumeration of bounded inputs; the text in the real result is compared with the input",
  "All bounded strings, all years in strings of every kind, all pairs of interval ends and letter cases.")
k("C27", E + "the precision its mask leaves",
  "Every year of digits and X with months and days of every kind, and the single-flag rule on every bound of every enumerated string that parses.")
k("C28", "exhaustive enumeration of refinement pairs of bounded inputs through the real code, with order invariants between their spans",
  "Every X replaced by every digit, every month and day added to every year, every mark added; and the order of the bounds of every enumerated string that parses.")
k("C29", "exhaustive enumeration of bounded strings through every public parser of the real code, compared with the general parser",
  "All bounded strings go through the three level parsers and the nineteen feature parsers. Of seasons and month groups read at another level only the outer bounds are compared.")
k("C30", "exhaustive enumeration of bounded strings through a 32-bit and a 64-bit build of the real code, compared with each other",
  "GOARCH=386 stands for all 32-bit platforms. Answers are compared by hash, batch by batch.")
k("C31", "exhaustive fault injection: every byte position of the output of the real programs is a failing write, once and from there on",
  "The fault is put into the standard library's write system call by a build overlay. Argument lists come from a list that covers every feature; failures of standard error are not covered.")
k("C32", "exhaustive enumeration of bounded JSON documents through the real code, against the documented form",
  "Documents of every feature with every member removed, null, moved or respelled, and every timestamp text of a bounded grammar. Documents with unknown members are covered by single insertions.")
k("C33", "exhaustive enumeration of bounded request paths and sequences of presses on the real server and page, against the library",
  "All paths of up to three segments and all sequences of three presses. The page runs in Node with a small document model, not in a browser.")
k("C34", "exhaustive enumeration of bounded strings, with the library's statements counted by instrumentation and its allocations by the runtime",
  "Every statement of the library is instrumented; at most 6000 + 400 per character, and 256 KB + 4 KB per character. Work of the standard library is seen in allocations and the time limit only.")
k("C35", "exhaustive enumeration of bounded strings through the span functions and the parsers of the real code, compared with each other",
  "All dates of the listed years, months and days with a mark on either side of each component, all pairs of the listed ends, and the shared spaces. What only the span functions read is related to what they read without marks and of each side.")
k("C36", "exhaustive enumeration of long histories of calls (each kind of call on each family of strings, one process each) over the real code, with the live memory, goroutines and files as the state",
  "Every pair of a kind of call and a family of strings, and all mixed, also from eight goroutines and through the browser function. A history is 18,000 calls; where it seems to leave something, 260,000 more decide. A fixed pattern of strings in each family.")
json.dump(c, open("tools/checks.json", "w"), indent=1); print(len(c))
